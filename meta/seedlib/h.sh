# sourced by demo.sh: scratch folder, driver build, HTTP server in the scratch folder
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d /tmp/gsdemo.XXXXXX)
SRV=
cleanup() { [ -n "$SRV" ] && kill -9 -- -$SRV 2>/dev/null; cd /; rm -rf "$T"; }
trap cleanup EXIT
scratch() {   # a private gStore home
	mkdir -p "$T/data" "$T/backups" "$T/bin" "$T/logs" "$T/.tmp" "$T/.debug" "$T/lib"
	cp -r "$R/data/system" "$T/data/"; cp "$R/conf.ini" "$R/init.conf" "$R"/slog*.properties "$R"/ip*.config "$T/"
	sed -i 's/^log_mode=.*/log_mode=0/' "$T/conf.ini"
	cd "$T"; timeout 60 "$R/bin/ginit" --make >init.log 2>&1 || { echo "ginit failed"; tail -3 init.log; }
}
drv() {       # drv SRC [extra flags]: compile a driver against the project's objects
	local o; o=$(cd "$R" && for f in .objs/*.o; do nm "$f" 2>/dev/null | grep -q ' T main$' || case $f in *grpc_*|*ghttp*) ;; *) echo "$R/$f";; esac; done)
	g++ -std=c++11 -g -O1 -pthread -fopenmp -w -DNDEMO -I"$R" -I"$R/_build/shim/inc" -I"$R/tools/antlr4-cpp-runtime-4/runtime/src" -I"$R/tools/log4cplus/include" "$@" -o "$T/drv" $o \
	  -L/usr/lib64 -L"$R/lib" -L/usr/local/lib -L/usr/lib -ljemalloc -lreadline -lantlr4-runtime -lgcov -lboost_thread -lboost_system -lboost_regex -lpthread -lcurl -llog4cplus -lz -lminizip -ldl || { echo "driver does not compile"; exit 3; }
}
serve() {     # ghttp on a free loopback port
	cp "$R/bin/ghttp" "$T/bin/ghttp"; cd "$T"
	PORT=$(python3 -c 'import socket; s=socket.socket(); s.bind(("127.0.0.1",0)); print(s.getsockname()[1])')
	setsid "$T/bin/ghttp" start -p $PORT >"$T/srv.log" 2>&1 & SRV=$!
	local i; for i in $(seq 100); do curl -s -m 2 "http://127.0.0.1:$PORT/grpc/api?operation=testConnect" >/dev/null && return 0; sleep 0.2; done
	echo "server did not start"; tail -5 "$T/srv.log"; exit 3
}
api() {       # api key=value ... -> answer
	local a=(); for x in "$@"; do a+=(--data-urlencode "$x"); done
	curl -s -G -m ${TMO:-20} "${a[@]}" "http://127.0.0.1:$PORT/grpc/api"
}
