From 8d41982a9c2986b0a2760cca57ce7c54d8b3f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 01/49] fix: release the cache lock when IVArray::insert cannot
 write a long list

---
 KVstore/IVArray/IVArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index cc80060..2c88118 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -383,6 +383,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 		unsigned store = BM->WriteValue(_str, _len);
 		if (store == 0)
 		{
+			this->CacheLock.unlock();
 			return false;
 		}
 		array[_key].setStore(store);
-- 
2.43.0


From f94d730a17518218bf2e61e0de3847bd09942b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 02/49] fix: grow the value arrays past the inserted key, not
 only up to it

---
 KVstore/ISArray/ISArray.cpp | 4 ++--
 KVstore/IVArray/IVArray.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index a58d1aa..439e875 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -344,8 +344,8 @@ ISArray::insert(unsigned _key, char *_str, unsigned _len)
 	{
 		// Alloc = true;
 		CurEntryNumChange = true;
-		// temp is the smallest number >= _key and mod SET_KEY_INC = 0
-		unsigned temp = ((_key + (1 << 10) - 1) >> 10) << 10;
+		// temp is the smallest number > _key and mod SET_KEY_INC = 0
+		unsigned temp = ((_key + (1 << 10)) >> 10) << 10;
 		unsigned OldEntryNum = CurEntryNum;
 		CurEntryNum = max(OldEntryNum << 1, temp);
 		CurEntryNum = ISMIN(CurEntryNum, static_cast<unsigned>(ISMAXKEYNUM));
diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index 2c88118..0014853 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -354,7 +354,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 		unsigned OldEntryNum = CurEntryNum;
 //		CurEntryNum = max(CurEntryNum + IVArray::SET_KEY_INC, temp);
 		CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-		while (_key > CurEntryNum)
+		while (_key >= CurEntryNum)
 		{
 			CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 		}
@@ -698,7 +698,7 @@ IVArray::TryExclusiveLatch(unsigned _key, shared_ptr<Transaction> txn, bool has_
 			//assuming one expand is enough
 			unsigned OldEntryNum = CurEntryNum;
 			CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-			while (_key > CurEntryNum)
+			while (_key >= CurEntryNum)
 			{
 				CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 			}
-- 
2.43.0


From 13cb27d441eb08aff7a63db1dc31800251a0eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 03/49] fix: copy a cached string before giving the access lock
 back

---
 KVstore/ISArray/ISArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index 439e875..5f77acc 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -296,8 +296,9 @@ ISArray::search(unsigned _key, char *&_str, unsigned &_len)
 	if (array[_key].inCache())
 	{
 		UpdateTime(_key);
+		bool ret = array[_key].getBstr(_str, _len);
 		this->AccessLock.unlock();
-		return array[_key].getBstr(_str, _len);
+		return ret;
 	}
 //	printf(" need to read disk ");
 	// read in disk
-- 
2.43.0


From 03fe3661be16b566563ff110f027e6e4266eb4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 04/49] fix: give the log lock back when a log file is empty

---
 GRPC/APIUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index e656e10..3fd595c 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -2056,6 +2056,7 @@ void APIUtil::get_access_log(const string &date, int &page_no, int &page_size, s
         {
             dbAccessLogs->setTotalSize(totalSize);
             dbAccessLogs->setTotalPage(totalPage);
+            pthread_rwlock_unlock(&access_log_lock);
             return;
         }
         totalPage = (totalSize/page_size) + (totalSize%page_size == 0 ? 0 : 1);
@@ -2197,6 +2198,7 @@ void APIUtil::get_query_log(const string &date, int &page_no, int &page_size, st
         {
             dbQueryLogs->setTotalSize(totalSize);
             dbQueryLogs->setTotalPage(totalPage);
+            pthread_rwlock_unlock(&query_log_lock);
             return;
         }
         totalPage = (totalSize/page_size) + (totalSize%page_size == 0 ? 0 : 1);
@@ -2390,6 +2392,7 @@ void APIUtil::get_transactionlog(int &page_no, int &page_size, struct Transactio
         {
             dbQueryLogs->setTotalSize(totalSize);
             dbQueryLogs->setTotalPage(totalPage);
+            pthread_rwlock_unlock(&transactionlog_lock);
             return;
         }
         totalPage = (totalSize/page_size) + (totalSize%page_size == 0 ? 0 : 1);
-- 
2.43.0


From 82765f1165217d9a23c47b2b868061bb8859a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 05/49] fix: take the address table lock exclusively where an
 entry may be inserted

---
 GRPC/APIUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 3fd595c..c15af88 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -492,7 +492,7 @@ bool APIUtil::ip_check(const string& ip)
 
 bool APIUtil::ip_error_num_check(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
@@ -514,7 +514,7 @@ bool APIUtil::ip_error_num_check(const string& ip)
 
 void APIUtil::update_access_ip_error_num(const string& ip)
 {
-    pthread_rwlock_rdlock(&ips_map_lock);
+    pthread_rwlock_wrlock(&ips_map_lock);
     std::map<std::string, struct IpInfo *>::iterator it = ips.find(ip);
     if (it != ips.end())
     {
-- 
2.43.0


From a964ba22b35730c8506f5a351d3d10f30a7c566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 06/49] fix: count accounts and databases under their locks

---
 GRPC/APIUtil.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index c15af88..2d12f86 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1235,7 +1235,10 @@ bool APIUtil::check_user_exist(const std::string& username)
 
 bool APIUtil::check_user_count()
 {
-    return users.size() < max_user_num;
+    pthread_rwlock_rdlock(&users_map_lock);
+    bool result = users.size() < max_user_num;
+    pthread_rwlock_unlock(&users_map_lock);
+    return result;
 }
 
 bool APIUtil::check_db_exist(const std::string& db_name)
@@ -1253,7 +1256,10 @@ bool APIUtil::check_db_exist(const std::string& db_name)
 
 bool APIUtil::check_db_count()
 {
-    return already_build.size() < max_database_num;
+    pthread_rwlock_rdlock(&already_build_map_lock);
+    bool result = already_build.size() < max_database_num;
+    pthread_rwlock_unlock(&already_build_map_lock);
+    return result;
 }
 
 bool APIUtil::add_privilege(const std::string& username, const vector<string>& types, const std::string& db_name)
-- 
2.43.0


From 099d343d2189757913e412107ee629eed05139b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 07/49] fix: hold the account lock while revoking the
 privileges of a dropped database

---
 GRPC/APIUtil.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 2d12f86..61563a0 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -876,6 +876,7 @@ bool APIUtil::delete_from_already_build(string db_name)
             already_build.erase(db_name);
 
             // clear all privileges 
+            pthread_rwlock_rdlock(&users_map_lock);
             std::map<std::string, struct DBUserInfo *>::iterator iter;
             for (iter = users.begin(); iter != users.end(); iter++)
             {
@@ -907,6 +908,7 @@ bool APIUtil::delete_from_already_build(string db_name)
                 iter->second->export_priv.erase(db_name);
                 pthread_rwlock_unlock(&(iter->second->export_priv_set_lock));
             }
+            pthread_rwlock_unlock(&users_map_lock);
         }
         return unlock_already_build_map();
     }
-- 
2.43.0


From 1b8220d20640b47f3d4172d40aef55af648f98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 08/49] fix: look transactions up under the table lock, without
 inserting

---
 Database/Txn_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Txn_manager.h b/Database/Txn_manager.h
index 4c18fb0..c501913 100644
--- a/Database/Txn_manager.h
+++ b/Database/Txn_manager.h
@@ -71,7 +71,7 @@ public:
 	//GC
 	void Checkpoint();
 	
-	shared_ptr<Transaction> Get_Transaction(txn_id_t TID) { return txn_table[TID]; };
+	shared_ptr<Transaction> Get_Transaction(txn_id_t TID) { return get_transaction(TID); };
 	txn_id_t find_latest_txn();
 	
 	inline Database* GetDatabase() { return this->db; }
-- 
2.43.0


From 1a6a891e449eb65ee63a32025cb14a5471dd061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 09/49] fix: report the conflict when a predicate of a batch
 cannot be latched

---
 KVstore/KVstore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/KVstore.cpp b/KVstore/KVstore.cpp
index 4eceb11..169e43c 100644
--- a/KVstore/KVstore.cpp
+++ b/KVstore/KVstore.cpp
@@ -5448,7 +5448,7 @@ KVstore::try_exclusive_locks(vector<TYPE_ENTITY_LITERAL_ID>& sids, vector<TYPE_E
 		obj_has_read[i] = txn->ReadSetFind(oids[i], Transaction::IDType::OBJECT);
 		obj_has_write[i] = txn->WriteSetFind(oids[i],Transaction::IDType::OBJECT);
 	}
-	int sub_ret, obj_ret, pre_ret;
+	int sub_ret = 1, obj_ret = 1, pre_ret = 1;
 	// bool sub_invalid = true, obj_invalid = true, pre_invalid = true;
 	int k = 0;
 	for(; k < s_num; k++)
@@ -5550,7 +5550,7 @@ KVstore::try_exclusive_locks(vector<TYPE_ENTITY_LITERAL_ID>& sids, vector<TYPE_E
 	 			// 	obj_invalid = false;
 	 			// }
 	 		}
-
+			return false;
 	 	}
 	}
 
-- 
2.43.0


From 62e3c040bc113dd1448274ebdace931621f8c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 10/49] fix: scan the transaction table under its lock

---
 Database/Txn_manager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index 67a8cfd..dc35c04 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -341,8 +341,10 @@ void Txn_manager::restore()
 
 txn_id_t Txn_manager::find_latest_txn()
 {
+	table_lock.lockExclusive();
 	auto it = txn_table.begin();
 	if (it == txn_table.end()) {
+		table_lock.unlock();
 		return 0;
 	}
 	txn_id_t max = it->first;
@@ -359,6 +361,7 @@ txn_id_t Txn_manager::find_latest_txn()
 			is_found = true;
 		}
 	}
+	table_lock.unlock();
 	if (is_found)
 		return max;
 	else
@@ -367,14 +370,21 @@ txn_id_t Txn_manager::find_latest_txn()
 
 void Txn_manager::abort_all_running()
 {
+	vector<txn_id_t> running;
+	table_lock.lockShared();
 	auto it = txn_table.begin();
 	for (; it != txn_table.end(); it++)
 	{
 		if (it->second->GetState() == TransactionState::RUNNING)
 		{
-			Abort(it->first);
+			running.push_back(it->first);
 		}
 	}
+	table_lock.unlock();
+	for (unsigned i = 0; i < running.size(); i++)
+	{
+		Abort(running[i]);
+	}
 }
 
 void Txn_manager::print_txn_dataset(txn_id_t TID)
-- 
2.43.0


From 64264ab4d0a0b5bc18655b2a7151b9c9d64e9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 11/49] fix: look into a privilege set under its lock when
 revoking

---
 GRPC/APIUtil.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 61563a0..7cd831d 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1627,6 +1627,14 @@ int APIUtil::clear_user_privilege(string username)
 	}
 }
 
+static bool holds_privilege(const std::set<std::string>& privileges, pthread_rwlock_t* set_lock, const std::string& db_name)
+{
+    pthread_rwlock_rdlock(set_lock);
+    bool result = privileges.find(db_name) != privileges.end();
+    pthread_rwlock_unlock(set_lock);
+    return result;
+}
+
 bool APIUtil::del_privilege(const std::string& username, const vector<string>& types, const std::string& db_name)
 {
     if (username == ROOT_USERNAME)
@@ -1643,31 +1651,31 @@ bool APIUtil::del_privilege(const std::string& username, const vector<string>& t
         for (unsigned i = 0; i < types.size(); i++)
         {
             string type = types[i];
-            if(type == "query" && it->second->query_priv.find(db_name) != it->second->query_priv.end())
+            if(type == "query" && holds_privilege(it->second->query_priv, &(it->second->query_priv_set_lock), db_name))
             {
                 update = "DELETE DATA { <" + username + "> <has_query_priv> <" + db_name + ">. }";
             }
-            else if(type == "update" && it->second->update_priv.find(db_name) != it->second->update_priv.end())
+            else if(type == "update" && holds_privilege(it->second->update_priv, &(it->second->update_priv_set_lock), db_name))
             {
                 update = "DELETE DATA { <" + username + "> <has_update_priv> <" + db_name + ">. }";
             }
-            else if(type == "load" && it->second->load_priv.find(db_name) != it->second->load_priv.end())
+            else if(type == "load" && holds_privilege(it->second->load_priv, &(it->second->load_priv_set_lock), db_name))
             {
                 update = "DELETE DATA { <" + username + "> <has_load_priv> <" + db_name + ">. }";
             }
-            else if(type == "unload" && it->second->unload_priv.find(db_name) != it->second->unload_priv.end())
+            else if(type == "unload" && holds_privilege(it->second->unload_priv, &(it->second->unload_priv_set_lock), db_name))
             {
                 update = "DELETE DATA { <" + username + "> <has_unload_priv> <" + db_name + ">. }";
             }
-            else if(type == "backup" && it->second->backup_priv.find(db_name) != it->second->backup_priv.end())
+            else if(type == "backup" && holds_privilege(it->second->backup_priv, &(it->second->backup_priv_set_lock), db_name))
             {
                 update = "DELETE DATA { <" + username + "> <has_backup_priv> <" + db_name + ">. }";
             }
-            else if(type == "restore" && it->second->restore_priv.find(db_name) != it->second->restore_priv.end())
+            else if(type == "restore" && holds_privilege(it->second->restore_priv, &(it->second->restore_priv_set_lock), db_name))
             {
                 update = "DELETE DATA { <" + username + "> <has_restore_priv> <" + db_name + ">. }";
             }
-            else if(type == "export" && it->second->export_priv.find(db_name) != it->second->export_priv.end())
+            else if(type == "export" && holds_privilege(it->second->export_priv, &(it->second->export_priv_set_lock), db_name))
             {
                 update = "DELETE DATA { <" + username + "> <has_export_priv> <" + db_name + ">. }";
             } else 
@@ -1680,43 +1688,43 @@ bool APIUtil::del_privilege(const std::string& username, const vector<string>& t
             // remove from privilege set
             if (del_result)
             {
-                if(type == "query" && it->second->query_priv.find(db_name) != it->second->query_priv.end())
+                if(type == "query" && holds_privilege(it->second->query_priv, &(it->second->query_priv_set_lock), db_name))
                 {
                     pthread_rwlock_wrlock(&(it->second->query_priv_set_lock));
                     it->second->query_priv.erase(db_name);
                     pthread_rwlock_unlock(&(it->second->query_priv_set_lock));
                 }
-                else if(type == "update" && it->second->update_priv.find(db_name) != it->second->update_priv.end())
+                else if(type == "update" && holds_privilege(it->second->update_priv, &(it->second->update_priv_set_lock), db_name))
                 {
                     pthread_rwlock_wrlock(&(it->second->update_priv_set_lock));
                     it->second->update_priv.erase(db_name);
                     pthread_rwlock_unlock(&(it->second->update_priv_set_lock));
                 }
-                else if(type == "load" && it->second->load_priv.find(db_name) != it->second->load_priv.end())
+                else if(type == "load" && holds_privilege(it->second->load_priv, &(it->second->load_priv_set_lock), db_name))
                 {
                     pthread_rwlock_wrlock(&(it->second->load_priv_set_lock));
                     it->second->load_priv.erase(db_name);
                     pthread_rwlock_unlock(&(it->second->load_priv_set_lock));
                 }
-                else if(type == "unload" && it->second->unload_priv.find(db_name) != it->second->unload_priv.end())
+                else if(type == "unload" && holds_privilege(it->second->unload_priv, &(it->second->unload_priv_set_lock), db_name))
                 {
                     pthread_rwlock_wrlock(&(it->second->unload_priv_set_lock));
                     it->second->unload_priv.erase(db_name);
                     pthread_rwlock_unlock(&(it->second->unload_priv_set_lock));
                 }
-                else if(type == "backup" && it->second->backup_priv.find(db_name) != it->second->backup_priv.end())
+                else if(type == "backup" && holds_privilege(it->second->backup_priv, &(it->second->backup_priv_set_lock), db_name))
                 {
                     pthread_rwlock_wrlock(&(it->second->backup_priv_set_lock));
                     it->second->backup_priv.erase(db_name);
                     pthread_rwlock_unlock(&(it->second->backup_priv_set_lock));
                 }
-                else if(type == "restore" && it->second->restore_priv.find(db_name) != it->second->restore_priv.end())
+                else if(type == "restore" && holds_privilege(it->second->restore_priv, &(it->second->restore_priv_set_lock), db_name))
                 {
                     pthread_rwlock_wrlock(&(it->second->restore_priv_set_lock));
                     it->second->restore_priv.erase(db_name);
                     pthread_rwlock_unlock(&(it->second->restore_priv_set_lock));
                 }
-                else if(type == "export" && it->second->export_priv.find(db_name) != it->second->export_priv.end())
+                else if(type == "export" && holds_privilege(it->second->export_priv, &(it->second->export_priv_set_lock), db_name))
                 {
                     pthread_rwlock_wrlock(&(it->second->export_priv_set_lock));
                     it->second->export_priv.erase(db_name);
-- 
2.43.0


From 51893e8b92b95779477c104016bb550d41086a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 12/49] fix: verify the credentials of file uploads and
 downloads

---
 Main/ghttp.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 762591e..7a9f8d1 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -4569,6 +4569,19 @@ void upload_handler(const HttpServer &server, const shared_ptr<HttpServer::Respo
 		formPtr.release();
 		return;
 	}
+	std::string encryption = "0";
+	if (formPtr->find("encryption") != formPtr->end())
+	{
+		encryption = formPtr->at("encryption").second;
+	}
+	error = apiUtil->check_indentity(username, password, encryption);
+	if (error.empty() == false)
+	{
+		apiUtil->update_access_ip_error_num(remote_ip);
+		sendResponseMsg(1001, error, operation, request, response);
+		formPtr.release();
+		return;
+	}
 	// filename : filecontent
 	std::pair<std::string, std::string>& fileinfo = formPtr->at("file");
 	if(fileinfo.first.empty())
@@ -4731,6 +4744,21 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		sendResponseMsg(1003, error, operation, request, response);
 		return;
 	}
+	// the default user of this api is the system user
+	if (username == apiUtil->get_system_username())
+	{
+		error = apiUtil->check_server_indentity(password);
+	}
+	else
+	{
+		error = apiUtil->check_indentity(username, password, encryption);
+	}
+	if (error.empty() == false)
+	{
+		apiUtil->update_access_ip_error_num(remote_ip);
+		sendResponseMsg(1001, error, operation, request, response);
+		return;
+	}
 	if (Util::is_file(filepath))
 	{
 		// the file must in the gstore home dir
-- 
2.43.0


From b6701a813fa68d1b7fd6a4be0b1a7eb741b05b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 13/49] fix: keep downloads inside the home directory, not
 inside any path that starts like it

---
 Main/ghttp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 7a9f8d1..025f11c 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -4766,7 +4766,7 @@ void download_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		std::string cur_path = Util::get_cur_path();
 		SLOG_DEBUG("download file path: " + filepath);
 		SLOG_DEBUG("file exact path: " + exact_path);
-		if (start_with(exact_path, cur_path) == false)
+		if (start_with(exact_path, cur_path + "/") == false)
 		{
 			error = "Download file must in the gstore home dir";
 			sendResponseMsg(1005, error, operation, request, response);
-- 
2.43.0


From 833271a2ae9e2c4919464a3616315f9a65cebde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 14/49] fix: release the update lock when a query fails with an
 exception

---
 Database/Database.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 92064fc..4958802 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1786,6 +1786,8 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			general_evaluation.export_flag = export_flag;
 		}
 
+		try
+		{
 		long t1 = Util::get_cur_time();
 		bool query_ret = general_evaluation.doQuery();
 		long t2 = Util::get_cur_time();
@@ -1804,6 +1806,14 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		// this->getFinalResult_lock.unlock();
 		long tv_afget = Util::get_cur_time();
 		cout << "during getFinalResult, used " << (tv_afget - tv_bfget) << "ms." << endl;
+		}
+		catch (...)
+		{
+			// evaluation failed: the lock must not stay taken
+			if (txn == nullptr)
+				pthread_rwlock_unlock(&(this->update_lock));
+			throw;
+		}
 
 		if (_fp != NULL)
 			need_output_answer = true;
@@ -1850,6 +1860,8 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			trie->LoadDictionary();
 		}*/
 
+		try
+		{
 		if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Data || general_evaluation.getQueryTree().getUpdateType() == QueryTree::Delete_Data)
 		{
 			GroupPattern &update_pattern = general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Data ? general_evaluation.getQueryTree().getInsertPatterns() : general_evaluation.getQueryTree().getDeletePatterns();
@@ -1876,10 +1888,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				else
 				{
 					if (txn == nullptr)
-					{
-						pthread_rwlock_unlock(&(this->update_lock));
 						throw "Database::query failed";
-					}
 				}
 
 			if (general_evaluation.getQueryTree().getUpdateType() == QueryTree::Insert_Data)
@@ -1916,6 +1925,14 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				success_num = insert(update_triple, update_triple_num, false, txn);
 			}
 		}
+		}
+		catch (...)
+		{
+			delete[] update_triple;
+			if (txn == nullptr)
+				pthread_rwlock_unlock(&(this->update_lock));
+			throw;
+		}
 
 		general_evaluation.releaseResult();
 		delete[] update_triple;
-- 
2.43.0


From 3e7d0d064eada73015441f771651e140c163d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 15/49] fix: give the account and system database locks back
 when a system query throws

---
 GRPC/APIUtil.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 7cd831d..4e7429a 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1382,7 +1382,15 @@ bool APIUtil::update_sys_db(string query)
     ResultSet _rs;
     FILE* ofp = stdout;
     string msg;
-	int ret = system_database->query(query, _rs, ofp);
+	int ret = -101;
+    try
+    {
+        ret = system_database->query(query, _rs, ofp);
+    }
+    catch (...)
+    {
+        SLOG_ERROR("system database update failed with an exception.");
+    }
     if (ret <= -100)  //select query
     {
         if(ret == -100)
@@ -1444,7 +1452,15 @@ std::string APIUtil::query_sys_db(const std::string& sparql)
     ResultSet rs;
 	FILE* output = NULL;
 
-	int ret_val = system_database->query(sparql, rs, output);
+	int ret_val = -101;
+    try
+    {
+        ret_val = system_database->query(sparql, rs, output);
+    }
+    catch (...)
+    {
+        SLOG_ERROR("system database query failed with an exception.");
+    }
 	bool ret = false, update = false;
 	if(ret_val < -1)   //non-update query
 	{
-- 
2.43.0


From 9deec420c19044bb203001c50d3c32ce7b341700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 16/49] fix: give the system database lock back when copying
 privileges fails

---
 GRPC/APIUtil.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 4e7429a..7936f9b 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1922,7 +1922,16 @@ bool APIUtil::init_privilege(const std::string& username, const std::string& db_
     for (std::string type:privileges)
     {
         sparql = "select ?x where {?x <has_" + type + "_priv> <" + src_db_name + ">.}";
-        int ret_val = system_database->query(sparql, rs, output);
+        int ret_val = -101;
+        try
+        {
+            ret_val = system_database->query(sparql, rs, output);
+        }
+        catch (...)
+        {
+            pthread_rwlock_unlock(&system_db_lock);
+            throw;
+        }
         total_privilegs += rs.ansNum;
         if (ret_val == -100 && rs.ansNum > 0) //copy privilege to dst_db_name
         {
-- 
2.43.0


From c2af329ce473604c4ffcfc05fccb3a0cda2745e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 17/49] fix: do not export a database whose lock could not be
 taken

---
 Main/ghttp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 025f11c..a57cd3f 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -2460,7 +2460,12 @@ void export_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			Util::create_dirs(db_path);
 		}
 		db_path = db_path + db_name + "_" + Util::get_timestamp() + ".nt";
-		apiUtil->rdlock_database(db_name); // lock database
+		if (apiUtil->rdlock_database(db_name) == false) // lock database
+		{
+			error = "Unable to export due to loss of lock.";
+			sendResponseMsg(1007, error, operation, request, response);
+			return;
+		}
 		SLOG_DEBUG("export_path: " + db_path);
 		FILE *ofp = fopen(db_path.c_str(), "w");
 		current_database->export_db(ofp);
-- 
2.43.0


From b3c2684fcf30441639de9314e5bf4e60488e9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 18/49] fix: use a database only as found under its lock

---
 Main/ghttp.cpp | 61 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index a57cd3f..0acdae1 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1088,6 +1088,14 @@ void load_thread_new(const shared_ptr<HttpServer::Request> &request, const share
 				sendResponseMsg(1005, error, operation, request, response);
 				return;
 			}
+			// another request may have loaded it before the lock was taken
+			if (apiUtil->check_already_load(db_name))
+			{
+				apiUtil->unlock_database(db_name);
+				error = "Unable to load due to a simultaneous load.";
+				sendResponseMsg(1005, error, operation, request, response);
+				return;
+			}
 
 			Socket socket;
 			Database *current_database = new Database(db_name);
@@ -1195,10 +1203,12 @@ void monitor_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 		}
 		string creator = database_info->getCreator();
 		string time = database_info->getTime();
-		apiUtil->unlock_databaseinfo(database_info);
 		Database* current_database;
 		apiUtil->get_database(db_name, current_database);
+		// a loaded database is read under the lock, or it could be unloaded meanwhile
+		bool locked = current_database != NULL;
 		if (current_database == NULL) {
+			apiUtil->unlock_databaseinfo(database_info);
 			current_database = new Database(db_name);
 			current_database->loadDBInfoFile();
 			current_database->loadStatisticsInfoFile();
@@ -1228,6 +1238,8 @@ void monitor_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 		doc.AddMember("literalNum", current_database->getLiteralNum(), allocator);
 		doc.AddMember("subjectNum", current_database->getSubNum(), allocator);
 		doc.AddMember("predicateNum", current_database->getPreNum(), allocator);
+		if (locked)
+			apiUtil->unlock_databaseinfo(database_info);
 		doc.AddMember("connectionNum", apiUtil->get_connection_num(), allocator);
 		unsigned diskUsed = 0;
 		if (disk != "0") {
@@ -1835,6 +1847,15 @@ void backup_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			sendResponseMsg(1007, error, operation, request, response);
 			return;
 		}
+		// it may have been unloaded before the lock was taken
+		apiUtil->get_database(db_name, current_db);
+		if (current_db == NULL)
+		{
+			apiUtil->unlock_databaseinfo(db_info);
+			error = "Database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+			return;
+		}
 		// begin backup database
 		string path = backup_path;
 		string default_backup_path = apiUtil->get_backup_path();
@@ -2106,6 +2127,13 @@ void query_thread_new(const shared_ptr<HttpServer::Request> &request, const shar
 			{
 				throw runtime_error("get current database read lock fail.");
 			}
+			// it may have been unloaded before the lock was taken
+			apiUtil->get_database(db_name, current_database);
+			if (current_database == NULL)
+			{
+				apiUtil->unlock_database(db_name);
+				throw runtime_error("Database not load yet.");
+			}
 		}
 		catch (const std::exception &e)
 		{
@@ -2466,6 +2494,15 @@ void export_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			sendResponseMsg(1007, error, operation, request, response);
 			return;
 		}
+		// it may have been unloaded before the lock was taken
+		apiUtil->get_database(db_name, current_database);
+		if (current_database == NULL)
+		{
+			apiUtil->unlock_database(db_name);
+			error = "Database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+			return;
+		}
 		SLOG_DEBUG("export_path: " + db_path);
 		FILE *ofp = fopen(db_path.c_str(), "w");
 		current_database->export_db(ofp);
@@ -3026,8 +3063,10 @@ void checkpoint_thread_new(const shared_ptr<HttpServer::Request> &request, const
 		}
 		else
 		{
+			// it may have been unloaded before the lock was taken
+			apiUtil->get_database(db_name, current_database);
 			auto txn_m = apiUtil->get_Txn_ptr(db_name);
-			if (txn_m == NULL)
+			if (current_database == NULL || txn_m == NULL)
 			{
 				error = "Get database transaction manager error.";
 				apiUtil->unlock_database(db_name);
@@ -3187,13 +3226,18 @@ void batchInsert_thread_new(const shared_ptr<HttpServer::Request> &request, cons
 			}
 			upfile.getFileList(zip_files, "");
 		}
-		Database *current_database;
-		apiUtil->get_database(db_name, current_database);
+		Database *current_database = NULL;
 		if (apiUtil->trywrlock_database(db_name) == false)
 		{
 			error = "The operation can not been excuted due to loss of lock.";
 			sendResponseMsg(1004, error, operation, request, response);
 		}
+		else if (apiUtil->get_database(db_name, current_database), current_database == NULL)
+		{
+			apiUtil->unlock_database(db_name);
+			error = "Database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+		}
 		else
 		{
 			string success = "Batch insert data successfully.";
@@ -3304,13 +3348,18 @@ void batchRemove_thread_new(const shared_ptr<HttpServer::Request> &request, cons
 			sendResponseMsg(1004, error, operation, request, response);
 			return;
 		}
-		Database *current_database;
-		apiUtil->get_database(db_name, current_database);
+		Database *current_database = NULL;
 		if (apiUtil->trywrlock_database(db_name) == false)
 		{
 			error = "The operation can not been excuted due to loss of lock.";
 			sendResponseMsg(1007, error, operation, request, response);
 		}
+		else if (apiUtil->get_database(db_name, current_database), current_database == NULL)
+		{
+			apiUtil->unlock_database(db_name);
+			error = "Database not load yet.";
+			sendResponseMsg(1004, error, operation, request, response);
+		}
 		else
 		{
 			string success = "Batch remove data successfully.";
-- 
2.43.0


From 19979715efeb9baf170ed48a230325cc14e6f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 19/49] fix: insert a new account in memory only once it is
 recorded

---
 GRPC/APIUtil.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 7936f9b..170db53 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1514,12 +1514,14 @@ bool APIUtil::user_add(const string& username, const string& password)
         #if defined(DEBUG)
         SLOG_DEBUG("user ready to add.");
         #endif
-        struct DBUserInfo *temp_user = new DBUserInfo(username, password);
-        users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
         string update = "INSERT DATA {<" + username + "> <has_password> \"" + password + "\".}";
         result = update_sys_db(update);
         if (result)
+        {
+            struct DBUserInfo *temp_user = new DBUserInfo(username, password);
+            users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
             refresh_sys_db();
+        }
     }
     pthread_rwlock_unlock(&users_map_lock);
     return result;
-- 
2.43.0


From 6b63bc49e353c1696787504ea3dc68d426b2a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 20/49] fix: list a new database as built only once that is
 recorded

---
 GRPC/APIUtil.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 170db53..999d43a 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1065,14 +1065,16 @@ bool APIUtil::add_already_build(const std::string &db_name, const std::string &c
     #if defined(DEBUG)
 	SLOG_DEBUG("already_build_map write lock ok.");
     #endif
-    struct DatabaseInfo* temp_db = new DatabaseInfo(db_name, creator, build_time);
-    already_build.insert(pair<std::string, struct DatabaseInfo*>(db_name, temp_db));
-    unlock_already_build_map();
     string update = "INSERT DATA {<" + db_name + "> <database_status> \"already_built\"." +
 		"<" + db_name + "> <built_by> <" + creator + "> ." + "<" + db_name + "> <built_time> \"" + build_time + "\".}";
     bool update_result = update_sys_db(update);
     if (update_result)
+    {
+        struct DatabaseInfo* temp_db = new DatabaseInfo(db_name, creator, build_time);
+        already_build.insert(pair<std::string, struct DatabaseInfo*>(db_name, temp_db));
         refresh_sys_db();
+    }
+    unlock_already_build_map();
     #if defined(DEBUG)
     SLOG_DEBUG("database add done.");
     #endif
-- 
2.43.0


From 5c1f4dbf452590240cba8b3d6b1316eed1157d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 21/49] fix: remove an account in memory only when its removal
 is recorded

---
 GRPC/APIUtil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 999d43a..75e048a 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1535,7 +1535,6 @@ bool APIUtil::user_delete(const string& username)
     bool result = false;
     if(users.find(username) != users.end())
     {
-        users.erase(username);
         string update = "DELETE WHERE {<" + username + "> <has_password> ?o.}" ;
         result = update_sys_db(update);
         // clear privileges
@@ -1554,7 +1553,10 @@ bool APIUtil::user_delete(const string& username)
         update = "DELETE WHERE {<" + username + "> <has_export_priv> ?o.}";
 		result = update_sys_db(update) || result;
         if (result)
+        {
+            users.erase(username);
             refresh_sys_db();
+        }
     }
     pthread_rwlock_unlock(&users_map_lock);
     return result;
-- 
2.43.0


From 522435a581e272718c540cf109332e9a4cee6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 22/49] fix: delete what the DELETE template of a DELETE/INSERT
 update says

---
 Parser/QueryParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 22609ff..8d41e68 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1476,8 +1476,10 @@ antlrcpp::Any QueryParser::visitModify(SPARQLParser::ModifyContext *ctx)
 
 	if (ctx->deleteClause() && ctx->insertClause())
 	{
-		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
+		// the update type decides which template a triple belongs to
+		query_tree_ptr->setUpdateType(QueryTree::Delete_Clause);
 		visit(ctx->deleteClause());
+		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
 		visit(ctx->insertClause());
 	}
 	else if (ctx->deleteClause())
-- 
2.43.0


From 6258f9de818a80ee10b6aec3e22f0ae5867518b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 23/49] fix: change a password in one update, and in memory
 only once it is recorded

---
 GRPC/APIUtil.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 75e048a..253c03a 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1570,13 +1570,11 @@ bool APIUtil::user_pwd_alert(const string& username, const string& password)
     iter = users.find(username);
     if(iter != users.end())
     {
-        iter->second->setPassword(password);
-        string update = "DELETE WHERE {<" + username + "> <has_password> ?o.}";
+        string update = "DELETE {<" + username + "> <has_password> ?o.} INSERT {<" + username + "> <has_password> \"" + password + "\".} WHERE {<" + username + "> <has_password> ?o.}";
         result = update_sys_db(update);
         if (result)
         {
-            update = "INSERT DATA {<" + username + "> <has_password>  \"" + password + "\".}";
-            result = update_sys_db(update) || result;
+            iter->second->setPassword(password);
             refresh_sys_db();
         }
     }
-- 
2.43.0


From cc905614bd32d7f6052fd47ac90c37c2d026a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 24/49] fix: count the deletions of a DELETE/INSERT update as
 well

---
 Database/Database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 4958802..7ef3246 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1922,7 +1922,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				//{
 				// update_triple[i] = trie->Compress(update_triple[i], Trie::QUERYMODE);
 				//}
-				success_num = insert(update_triple, update_triple_num, false, txn);
+				success_num += insert(update_triple, update_triple_num, false, txn);
 			}
 		}
 		}
-- 
2.43.0


From 45286a7442aefe85e54f767e383390b16656be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 25/49] fix: request JSON of an unexpected type must not abort
 the server

---
 Main/ghttp.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 0acdae1..b5ad966 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -3425,7 +3425,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		SLOG_DEBUG("post content: \n" + strJson);
 
 		document.Parse(strJson.c_str());
-		if (document.HasParseError())
+		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format, content=" + strJson;
 			sendResponseMsg(1004, error, "paramcheck ", request, response);
@@ -3451,7 +3451,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			password = document["password"].GetString();
 		}
-		if (document.HasMember("encryption"))
+		if (document.HasMember("encryption") && document["encryption"].IsString())
 		{
 			encryption = document["encryption"].GetString();
 		}
@@ -3702,8 +3702,10 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 			}
 			else if (request_type == "POST")
 			{
-				type = document["type"].GetString();
-
+				if (document.HasMember("type") && document["type"].IsString())
+				{
+					type = document["type"].GetString();
+				}
 				if (document.HasMember("op_username") && document["op_username"].IsString())
 				{
 					op_username = document["op_username"].GetString();
@@ -4251,7 +4253,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			if (request_type == "POST")
 			{
-				if (document.HasMember("funInfo"))
+				if (document.HasMember("funInfo") && document["funInfo"].IsObject())
 				{
 					Value &fun_info = document["funInfo"];
 					build_PFNInfo(fun_info, pfn_info);
@@ -4312,7 +4314,7 @@ void request_thread(const shared_ptr<HttpServer::Response> &response,
 		{
 			if (request_type == "POST")
 			{
-				if (document.HasMember("funInfo"))
+				if (document.HasMember("funInfo") && document["funInfo"].IsObject())
 				{
 					Value &fun_info = document["funInfo"];
 					build_PFNInfo(fun_info, pfn_info);
@@ -4467,7 +4469,7 @@ void shutdown_handler(const HttpServer &server, const shared_ptr<HttpServer::Res
 		SLOG_DEBUG("shutdown post content: \n" + strJson);
 
 		document.Parse(strJson.c_str());
-		if (document.HasParseError())
+		if (document.HasParseError() || !document.IsObject())
 		{
 			string error = "the post content is not fit the json format,content=" + strJson;
 			sendResponseMsg(1003, error, operation, request, response);
-- 
2.43.0


From 505fcbcc99ad50b7118d751b522b7f952f872574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 26/49] fix: answer an upload without a file, and measure the
 upload itself against the size limit

---
 Main/ghttp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index b5ad966..b4ec8fc 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -4638,6 +4638,13 @@ void upload_handler(const HttpServer &server, const shared_ptr<HttpServer::Respo
 		formPtr.release();
 		return;
 	}
+	if (formPtr->find("file") == formPtr->end())
+	{
+		error = "Upload file can not be empty!";
+		sendResponseMsg(1003, error, operation, request, response);
+		formPtr.release();
+		return;
+	}
 	// filename : filecontent
 	std::pair<std::string, std::string>& fileinfo = formPtr->at("file");
 	if(fileinfo.first.empty())
@@ -4649,7 +4656,7 @@ void upload_handler(const HttpServer &server, const shared_ptr<HttpServer::Respo
 	}
 	if(request->header.find("Content-Length") != request->header.end())
 	{
-		size_t content_length = stoul(request->header.find("Content-Length")->second, nullptr, 0);
+		size_t content_length = data->length();
 		size_t max_body_size = apiUtil->get_upload_max_body_size();
 		if (content_length > max_body_size)
 		{
-- 
2.43.0


From 39e9775775a30fa5df99a5481076b3571dc381ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 27/49] fix: answer a build whose owner and privileges could
 not be recorded

---
 Main/ghttp.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index b4ec8fc..8595417 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -962,6 +962,12 @@ void build_thread_new(const shared_ptr<HttpServer::Request> &request, const shar
 				sendResponseMsg(resp_data, operation, request, response);
 				return;
 			}
+			if (!unz_dir_path.empty())
+			{
+				Util::remove_path(unz_dir_path);
+			}
+			result = "Import RDF file to database done, but recording its owner and privileges failed.";
+			sendResponseMsg(1005, result, operation, request, response);
 		}
 		else
 		{
-- 
2.43.0


From ae757595aaeae780005b051cc91548d180f11680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 28/49] fix: throw the error itself, a thrown pointer is caught
 by nobody and ends the server

---
 GRPC/APIUtil.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 253c03a..634e44a 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -2532,7 +2532,7 @@ std::string APIUtil::fun_cppcheck(std::string username, struct PFNInfo *fun_info
         fout << content;
         fout.close();
     } else {
-        throw new runtime_error("cannot write to file " + check_file_path);
+        throw runtime_error("cannot write to file " + check_file_path);
     }
     system(lookAtfile.c_str());
     system(cppcheck.c_str());
@@ -2619,7 +2619,7 @@ void APIUtil::fun_create(const string &username, struct PFNInfo *pfn_info)
         else 
         {
             SLOG_ERROR("open file error: " + file_path);
-            throw new runtime_error("cannot write to file " + file_path);
+            throw runtime_error("cannot write to file " + file_path);
         }
         // save method info to json file
         pfn_info->setFunStatus("1");
@@ -2664,7 +2664,7 @@ void APIUtil::fun_update(const std::string &username, struct PFNInfo *pfn_infos)
         else 
         {
             SLOG_ERROR("open file error: " + file_path);
-            throw new runtime_error("cannot write to file " + file_path);
+            throw runtime_error("cannot write to file " + file_path);
         }
         // save method info to json file
         pfn_infos->setFunStatus("1");
-- 
2.43.0


From 0b5df4c3d45e4f6d1489ebd828a834d76b89757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 29/49] fix: answer a transaction query whose evaluation throws
 something other than a std::exception

---
 Main/ghttp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 8595417..7646f9a 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -2796,6 +2796,11 @@ void tquery_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 		string error = "Transaction query fail:" + string(e.what());
 		sendResponseMsg(1005, error, operation, request, response);
 	}
+	catch (...)
+	{
+		string error = "Transaction query fail: unknown error";
+		sendResponseMsg(1005, error, operation, request, response);
+	}
 }
 
 /**
-- 
2.43.0


From dd4fc192fd09ed6bb115a6026a22ecd50de61a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 30/49] fix: a privilege query that fails makes copy_privilege
 fail, it does not end the server

---
 GRPC/APIUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 634e44a..457cf8e 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1934,7 +1934,7 @@ bool APIUtil::init_privilege(const std::string& username, const std::string& db_
         catch (...)
         {
             pthread_rwlock_unlock(&system_db_lock);
-            throw;
+            return false;
         }
         total_privilegs += rs.ansNum;
         if (ret_val == -100 && rs.ansNum > 0) //copy privilege to dst_db_name
-- 
2.43.0


From 72445b372c7e0b3d9c728db561298bd1e675b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 31/49] fix: removing a triple whose object is its subject
 frees the entity ID only once

---
 Database/Database.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 7ef3246..94ca2f4 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3459,7 +3459,8 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		if (is_obj_entity)
 		{
 			obj_degree = this->kvstore->getEntityDegree(_obj_id);
-			if (obj_degree == 0)
+			// NOTICE: if the object is the subject, the entity has been removed above
+			if (obj_degree == 0 && _obj_id != _sub_id)
 			{
 				this->kvstore->subEntityByID(_obj_id);
 				this->kvstore->subIDByEntity(_triple.object);
-- 
2.43.0


From 0e8da1e11d1c81440f37eb84003e125f202d8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 32/49] fix: batch removal skips triples with unknown names
 instead of removing the triple (0, 0, 0)

---
 Database/Database.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 94ca2f4..7d5cfcd 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4073,7 +4073,7 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 		write_update_log(_triples, _triple_num, 0, txn);
 	}
 
-	vector<ID_TUPLE> id_tuples(_triple_num);
+	vector<ID_TUPLE> id_tuples;
 	for (unsigned i = 0; i < _triple_num; ++i)
 	{
 		TripleWithObjType _triple = _triples[i];
@@ -4098,9 +4098,11 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 			continue;
 		}
 
-		id_tuples[i].subid = _sub_id;
-		id_tuples[i].preid = _pre_id;
-		id_tuples[i].objid = _obj_id;
+		ID_TUPLE id_tuple;
+		id_tuple.subid = _sub_id;
+		id_tuple.preid = _pre_id;
+		id_tuple.objid = _obj_id;
+		id_tuples.push_back(id_tuple);
 		sub_ids.insert(_sub_id);
 		pre_ids.insert(_pre_id);
 		obj_ids.insert(_obj_id);
@@ -4110,6 +4112,9 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
 	id_tuples.erase(new_end, id_tuples.end());
 	valid_num = id_tuples.size();
+	// none of the triples is in the database
+	if (valid_num == 0)
+		return 0;
 
 	// po inserts
 	// sub_batch_update(id_tuples, valid_num, update_num_s, UPDATE_TYPE::SUBJECT_INSERT, txn);
-- 
2.43.0


From 7804386662bbedecbfc8957df3ab7655517f0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 33/49] fix: a checkpoint does not free the ID of a predicate
 that was removed before

---
 Database/Database.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 7d5cfcd..9ffd55d 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4821,6 +4821,8 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 		{
 			string pre_str = this->kvstore->getPredicateByID(_pre_id);
 			// cerr << "pre_str" << pre_str << endl;
+			if (pre_str == "")
+				continue;
 			this->kvstore->subIDByPredicate(pre_str);
 			this->kvstore->subPredicateByID(_pre_id);
 			this->freePredicateID(_pre_id);
-- 
2.43.0


From a8353cbb2e448229d230a9cc6f294e2a3d57114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 34/49] fix: keep the pin of a cached list when the value array
 grows

---
 KVstore/IVArray/IVEntry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/KVstore/IVArray/IVEntry.cpp b/KVstore/IVArray/IVEntry.cpp
index a322f92..18fc8f6 100644
--- a/KVstore/IVArray/IVEntry.cpp
+++ b/KVstore/IVArray/IVEntry.cpp
@@ -151,6 +151,7 @@ IVEntry::Copy(const IVEntry& _entry)
 	this->cacheFlag = _entry.cacheFlag;
 	this->dirtyFlag = _entry.dirtyFlag;
 	this->usedFlag = _entry.usedFlag;
+	this->CachePinFlag = _entry.CachePinFlag;
 	if (_entry.value != NULL)
 	{
 		this->value = new Bstr();
-- 
2.43.0


From cf635e72b63f9255ea6b1a7423f1c2d8c0d33ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 35/49] fix: do not hand all IDs out again when the counted
 triples reach zero while names still have theirs

---
 Database/Database.cpp | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 9ffd55d..d015758 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3669,11 +3669,6 @@ bool Database::remove(std::string _rdf_file, bool _is_restore, shared_ptr<Transa
 	cout << "remove rdf triples done." << endl;
 	cout << "removed triples num: " << success_num << endl;
 
-	// if(this->vstree->isEmpty())
-	if (this->triples_num == 0)
-	{
-		this->resetIDinfo();
-	}
 	this->kvstore->set_if_single_thread(false);
 	return true;
 }
@@ -3784,13 +3779,6 @@ Database::remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num,
 		this->stringindex->disable(vertices, true);
 		this->stringindex->disable(predicates, false);
 	}
-	// BETTER+TODO:this will require us to lock all when remove process not ends(in multiple threads cases)
-	// An considerable idea is to check if empty after every triple removed
-	// if(this->vstree->isEmpty())
-	if (this->triples_num == 0)
-	{
-		this->resetIDinfo();
-	}
 
 	return valid_num;
 }
@@ -3906,10 +3894,6 @@ Database::batch_remove(std::string _rdf_file, bool _is_restore, shared_ptr<Trans
 	cout << "remove rdf triples done." << endl;
 	cout << "removed triples num: " << success_num << endl;
 
-	if (this->triples_num == 0)
-	{
-		this->resetIDinfo();
-	}
 	return success_num;
 }
 
-- 
2.43.0


From 278709ceebb9598e294b937684d4f3e203671b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 36/49] fix: a transaction adds only absent triples and removes
 only present ones, so that its last change of a triple wins

---
 Database/Database.cpp | 46 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index d015758..971580e 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3338,23 +3338,21 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		return false;
 	}
 
-	// if this is not a new triple, return directly (in case of no transaction)
-	if (txn == nullptr)
-	{
-		bool _triple_exist = false;
-		if (!_is_new_sub && !_is_new_pre && !_is_new_obj)
-			_triple_exist = this->exist_triple(_sub_id, _pre_id, _obj_id, txn);
+	// if this is not a new triple, return directly
+	bool _triple_exist = false;
+	if (!_is_new_sub && !_is_new_pre && !_is_new_obj)
+		_triple_exist = this->exist_triple(_sub_id, _pre_id, _obj_id, txn);
 
-		if (_triple_exist)
-		{
-			cout << "this triple already exist" << endl;
-			return false;
-		}
-		else
-		{
-			this->triples_num++; // NOTE: triples_num set here
-		}
+	if (_triple_exist)
+	{
+		cout << "this triple already exist" << endl;
+		// NOTICE: the locks taken above are given back with the write set
+		if (txn != nullptr)
+			txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		return false;
 	}
+	if (txn == nullptr)
+		this->triples_num++; // NOTE: triples_num set here
 
 	// update sp2o op2s s2po o2ps s2o o2s etc.
 	bool ret = (this->kvstore)->updateTupleslist_insert(_sub_id, _pre_id, _obj_id, txn);
@@ -3406,17 +3404,17 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		return false;
 	}
 
-	if (txn == nullptr)
+	bool _exist_triple = this->exist_triple(_sub_id, _pre_id, _obj_id, txn);
+	if (!_exist_triple)
 	{
-		bool _exist_triple = this->exist_triple(_sub_id, _pre_id, _obj_id, txn);
-		if (!_exist_triple)
-		{
-			cout << "triple not exist! " << endl;
-			return false;
-		}
-		else
-			this->triples_num--; // NOTE: triples_num set here
+		cout << "triple not exist! " << endl;
+		// NOTICE: the locks taken above are given back with the write set
+		if (txn != nullptr)
+			txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		return false;
 	}
+	if (txn == nullptr)
+		this->triples_num--; // NOTE: triples_num set here
 
 	// remove from sp2o op2s s2po o2ps s2o o2s
 	// sub2id, pre2id and obj2id will not be updated
-- 
2.43.0


From 78851d94cc7daafca9b5e51f726ec35680fae717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 37/49] fix: test and end a transaction under its own lock, so
 that it ends only once

---
 Database/Txn_manager.cpp | 11 ++++++++---
 Util/Transaction.h       |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index dc35c04..1f16da1 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -170,7 +170,8 @@ int Txn_manager::Commit(txn_id_t TID)
 		// checkpoint_lock.unlock();
 		return -1;
 	}
-	else if (txn->GetState() != TransactionState::RUNNING) {
+	unique_lock<recursive_mutex> operation_guard(txn->GetOperationLock());
+	if (txn->GetState() != TransactionState::RUNNING) {
 		cerr << "transaction not in running state! commit failed" << " " << (int)txn->GetState() << endl;	
 		// checkpoint_lock.unlock();
 		return 1;
@@ -190,6 +191,7 @@ int Txn_manager::Commit(txn_id_t TID)
 	txn->SetEndTime(Util::get_cur_time());
 	add_dirty_keys(txn);
 	checkpoint_lock.unlock();
+	operation_guard.unlock();
 	committed_num++;
 	int cycle = 50000;
 	if(committed_num.compare_exchange_strong(cycle, 0)){
@@ -207,6 +209,7 @@ int Txn_manager::Abort(txn_id_t TID)
 		cerr << "wrong transaction id!" << endl;
 		return -1;
 	}
+	unique_lock<recursive_mutex> operation_guard(txn->GetOperationLock());
 	if(db != nullptr)
 		db->TransactionRollback(txn);
 	else
@@ -229,7 +232,8 @@ int Txn_manager::Rollback(txn_id_t TID)
 		cerr << "wrong transaction id!" << endl;
 		return -1;
 	}
-	else if (txn->GetState() != TransactionState::RUNNING) {
+	unique_lock<recursive_mutex> operation_guard(txn->GetOperationLock());
+	if (txn->GetState() != TransactionState::RUNNING) {
 		cerr << "transaction not in running state! rollback failed" << endl;
 		return 1;
 	}
@@ -244,6 +248,7 @@ int Txn_manager::Query(txn_id_t TID, string sparql, string& results)
 		cerr << "wrong transaction ID!" << endl;
 		return -1;
 	}
+	unique_lock<recursive_mutex> operation_guard(txn->GetOperationLock());
 	if (txn->GetState() != TransactionState::RUNNING) {
 		cerr << "transaction not in running state! Query failed" <<  " " << (int)txn->GetState() <<  endl;;
 		return -99;
@@ -383,7 +388,7 @@ void Txn_manager::abort_all_running()
 	table_lock.unlock();
 	for (unsigned i = 0; i < running.size(); i++)
 	{
-		Abort(running[i]);
+		Rollback(running[i]);
 	}
 }
 
diff --git a/Util/Transaction.h b/Util/Transaction.h
index 07b139f..a9ae5ee 100644
--- a/Util/Transaction.h
+++ b/Util/Transaction.h
@@ -44,6 +44,7 @@ private:
 	
 	int wait_lock_time;
 	int retry_times;
+	recursive_mutex operation_lock;
 public:
 	int update_num;
 	enum class IDType{SUBJECT, PREDICATE, OBJECT};
@@ -65,6 +66,9 @@ public:
 	//inline void SetTimeStamp(TYPE_TS _timestamp) {this->timestamp = _timestamp; }
 	//inline TYPE_TS GetTimeStamp() const {return this->timestamp; };
 	
+	// held while an operation tests the state of the transaction and acts on it
+	recursive_mutex& GetOperationLock() { return this->operation_lock; }
+
 	TYPE_TXN_ID GetTID() const { return this->TID; }
 	TYPE_TXN_ID GetCommitID() const { return this->CommitID; }
 	
-- 
2.43.0


From 74fcc0a0476f8eb0c1135cc3696ba20c9e50af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 38/49] fix: an unloaded or dropped database is let go by its
 transaction manager before it is deleted

---
 Database/Txn_manager.cpp | 28 ++++++++++++++++++++++++----
 Database/Txn_manager.h   |  3 +++
 GRPC/APIUtil.cpp         | 18 ++++++++++++------
 3 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index 1f16da1..b9a8977 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -20,8 +20,7 @@ Txn_manager::Txn_manager(Database *db, string db_name)
 
 Txn_manager::~Txn_manager()
 {
-	abort_all_running();
-	Checkpoint();
+	Close();
 	cout << "Checkpoint done" << endl;
 	txn_table.clear();
 	out.close();
@@ -40,6 +39,10 @@ bool Txn_manager::add_transaction(txn_id_t TID, shared_ptr<Transaction> txn)
 {
 	//assert(txn_table.find(TID) == txn_table.end());
 	table_lock.lockExclusive();
+	if (closed) {
+		table_lock.unlock();
+		return false;
+	}
 	txn_table.insert(pair<txn_id_t,shared_ptr<Transaction> >(TID, txn));
 	table_lock.unlock();
 	return true;
@@ -154,10 +157,15 @@ txn_id_t Txn_manager::Begin(IsolationLevelType isolationlevel)
 	}
 	shared_ptr<Transaction> txn = make_shared<Transaction>(this->db_name, Util::get_cur_time(), TID, isolationlevel);
 	txn->SetCommitID(TID);
-	add_transaction(TID, txn);
+	txn->SetState(TransactionState::RUNNING);
+	if(add_transaction(TID, txn) == false)
+	{
+		cerr << "the database is being unloaded, begin failed" << endl;
+		checkpoint_lock.unlock();
+		return INVALID_ID;
+	}
 	string log_str = "Begin " + Util::int2string(TID);
 	//writelog(log_str);
-	txn->SetState(TransactionState::RUNNING);
 	return TID;
 }
 
@@ -392,6 +400,18 @@ void Txn_manager::abort_all_running()
 	}
 }
 
+void Txn_manager::Close()
+{
+	table_lock.lockExclusive();
+	closed = true;
+	table_lock.unlock();
+	abort_all_running();
+	Checkpoint();
+	checkpoint_lock.lockExclusive();
+	db = nullptr;
+	checkpoint_lock.unlock();
+}
+
 void Txn_manager::print_txn_dataset(txn_id_t TID)
 {
 	auto txn = Get_Transaction(TID);
diff --git a/Database/Txn_manager.h b/Database/Txn_manager.h
index c501913..78f1c42 100644
--- a/Database/Txn_manager.h
+++ b/Database/Txn_manager.h
@@ -40,6 +40,7 @@ private:
 	mutex DirtyKeys_lock;
 	
 	vector<IDSet> DirtyKeys;
+	bool closed = false;
 	atomic<int> committed_num = {0};
 	bool add_transaction(txn_id_t TID, shared_ptr<Transaction> txn);
 	shared_ptr<Transaction> get_transaction(txn_id_t TID);
@@ -78,6 +79,8 @@ public:
 	
 	//exception 
 	void abort_all_running();
+	// end all transactions and let go of the database: no transaction begins or works on it afterwards
+	void Close();
 	
 	//DEBUG
 	void print_txn_dataset(txn_id_t TID);
diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 457cf8e..9c3a050 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -728,8 +728,11 @@ bool APIUtil::remove_txn_managers(std::string db_name)
 		pthread_rwlock_unlock(&txn_m_lock);
 		return false;
 	}
+	shared_ptr<Txn_manager> txn_m = txn_managers[db_name];
 	txn_managers.erase(db_name);
     pthread_rwlock_unlock(&txn_m_lock);
+    // another request may still hold it: it must not work on the database any more
+    txn_m->Close();
     return true;
 }
 
@@ -751,8 +754,7 @@ bool APIUtil::db_checkpoint(string db_name)
 		return false;
 	}
 	shared_ptr<Txn_manager> txn_m = txn_managers[db_name];
-	txn_m->abort_all_running();
-	txn_m->Checkpoint();
+	txn_m->Close();
 	txn_managers.erase(db_name);
 	rwlock_code = pthread_rwlock_unlock(&txn_m_lock);
     if (rwlock_code == 0)
@@ -943,17 +945,21 @@ string APIUtil::begin_process(string db_name, int level , string username)
 {
     string result = "";
     shared_ptr<Txn_manager> txn_m = APIUtil::get_Txn_ptr(db_name);
+    if (txn_m == NULL)
+    {
+        return result;
+    }
     cerr << "Isolation Level Type:" << level << endl;
 	txn_id_t TID = txn_m->Begin(static_cast<IsolationLevelType>(level));
+    if (TID == INVALID_ID)
+	{
+		return result;
+	}
 	// SLOG_DEBUG("Transcation Id:"<< to_string(TID));
 	// SLOG_DEBUG(to_string(txn_m->Get_Transaction(TID)->GetStartTime()));
 	string begin_time = to_string(txn_m->Get_Transaction(TID)->GetStartTime());
 	string Time_TID = begin_time + "_" + to_string(TID);
 	add_transactionlog(db_name, username, Time_TID, begin_time, "RUNNING", "INF");
-    if (TID == INVALID_ID)
-	{
-		return result;
-	}
     string TID_s = to_string(TID);
     return TID_s;
 }
-- 
2.43.0


From aa6dd3cbfd722867289683d2a8b11805ed6f41ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 39/49] fix: a read transaction writes a predicate's shared
 latch down only if it got it

---
 KVstore/KVstore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/KVstore.cpp b/KVstore/KVstore.cpp
index 169e43c..58212e9 100644
--- a/KVstore/KVstore.cpp
+++ b/KVstore/KVstore.cpp
@@ -4239,7 +4239,7 @@ KVstore::getsubIDlistBypreID(TYPE_PREDICATE_ID _preid, unsigned*& _subidlist, un
 			return false;
 		}
 		
-		if(IS_SI && FirstRead && FirstRead)
+		if(IS_SI && latched && FirstRead)
 			txn->ReadSetInsert(_preid, Transaction::IDType::PREDICATE);
 
 		vector<unsigned> add_sidoidlist, del_sidoidlist;
@@ -4351,7 +4351,7 @@ KVstore::getobjIDlistBypreID(TYPE_PREDICATE_ID _preid, unsigned*& _objidlist, un
 			return false;
 		}
 		
-		if(IS_SI && FirstRead && FirstRead)
+		if(IS_SI && latched && FirstRead)
 			txn->ReadSetInsert(_preid, Transaction::IDType::PREDICATE);
 
 		vector<unsigned> add_sidoidlist, del_sidoidlist;
-- 
2.43.0


From b49684568fc7df8864f975ad97f60d997de7c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 40/49] fix: the clean-up at a checkpoint keeps queries and
 updates outside transactions out

---
 Database/Database.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 971580e..fbbf882 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4718,6 +4718,8 @@ bool Database::getFinalResult(SPARQLquery &_sparql_q, ResultSet &_result_set)
 void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids, vector<unsigned> &obj_literal_ids, vector<unsigned> &pre_ids)
 {
 	// vector<unsigned> sub_ids , obj_ids, obj_literal_ids, pre_ids;
+	// NOTICE: queries and updates outside transactions may be running: wait for them and keep new ones out
+	pthread_rwlock_wrlock(&(this->update_lock));
 	(this->kvstore)->IVArrayVacuum(sub_ids, obj_ids, obj_literal_ids, pre_ids);
 	vector<TYPE_ENTITY_LITERAL_ID> vertices, predicates;
 	// update
@@ -4819,6 +4821,7 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 	// update string index
 	this->stringindex->disable(vertices, true);
 	this->stringindex->disable(predicates, false);
+	pthread_rwlock_unlock(&(this->update_lock));
 }
 
 void Database::TransactionRollback(shared_ptr<Transaction> txn)
-- 
2.43.0


From f15f3b9abc9fe512e815750f6c08513c6ee048f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 41/49] fix: copy a cached value list before giving the cache
 lock back

---
 KVstore/IVArray/IVArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index 0014853..a7a23b1 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -298,8 +298,8 @@ IVArray::search(unsigned _key, char *&_str, unsigned long & _len)
 	if (array[_key].inCache())
 	{
 		UpdateTime(_key);
-		this->CacheLock.unlock();
 		bool ret = array[_key].getBstr(_str, _len);
+		this->CacheLock.unlock();
 		return ret;
 	}
 	// read in disk
@@ -591,8 +591,8 @@ IVArray::search(unsigned _key, char *& _str, unsigned long & _len, VDataSet& Add
 	if (array[_key].inCache())
 	{
 		UpdateTime(_key);
-		this->CacheLock.unlock();
 		bool ret = array[_key].getBstr(_str, _len);
+		this->CacheLock.unlock();
 		//cout << ret << endl;
 		//_str maybe nullptr
 		//cout << "get base str success......................................................" << endl;
-- 
2.43.0


From 9e1b53182b15c59babafa839bac346de4fd014ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:29 +0000
Subject: [PATCH 42/49] fix: read the string index under its latch

---
 StringIndex/StringIndex.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/StringIndex/StringIndex.cpp b/StringIndex/StringIndex.cpp
index fcb264f..eb2ae84 100644
--- a/StringIndex/StringIndex.cpp
+++ b/StringIndex/StringIndex.cpp
@@ -337,13 +337,18 @@ void StringIndex::setNum(StringIndexFile::StringIndexFileType _type, unsigned _n
 
 unsigned StringIndex::getNum(StringIndexFile::StringIndexFileType _type)
 {
-        if (_type == StringIndexFile::Entity)
-                return this->entity.getNum();
-        if (_type == StringIndexFile::Literal)
-                return this->literal.getNum();
-        if (_type == StringIndexFile::Predicate)
-                return this->predicate.getNum();
+	unsigned num = 0;
+	latch.lockShared();
+	if (_type == StringIndexFile::Entity)
+		num = this->entity.getNum();
+	else if (_type == StringIndexFile::Literal)
+		num = this->literal.getNum();
+	else if (_type == StringIndexFile::Predicate)
+		num = this->predicate.getNum();
+	else
 		assert(false);
+	latch.unlock();
+	return num;
 }
 
 void StringIndex::save(KVstore &kv_store)
@@ -388,25 +393,31 @@ bool StringIndex::randomAccess(unsigned id, string *str, char* &buffer, unsigned
 {
 	if(id < 0) return false;
 
+	//a transaction may append to the index (change) while another one reads it
+	bool ret;
+	latch.lockShared();
 	if (is_entity_or_literal)
 	{
 		if (id < Util::LITERAL_FIRST_ID)
 		{
-			return this->entity.randomAccess(id, str, buffer, buffer_size, real);
+			ret = this->entity.randomAccess(id, str, buffer, buffer_size, real);
 		}
 		else
 		{
-			return this->literal.randomAccess(id - Util::LITERAL_FIRST_ID, str, buffer, buffer_size, real);
+			ret = this->literal.randomAccess(id - Util::LITERAL_FIRST_ID, str, buffer, buffer_size, real);
 		}
 	}
 	else
 	{
-		return this->predicate.randomAccess(id, str, buffer, buffer_size, real);
+		ret = this->predicate.randomAccess(id, str, buffer, buffer_size, real);
 	}
+	latch.unlock();
+	return ret;
 }
 
 void StringIndex::addRequest(std::vector<StringIndexFile::AccessRequest> *requestVectors, unsigned id, std::string *str, bool is_entity_or_literal)
 {
+	latch.lockShared();
 	if (is_entity_or_literal)
 	{
 		//if(id == 9)
@@ -432,6 +443,7 @@ void StringIndex::addRequest(std::vector<StringIndexFile::AccessRequest> *reques
 	{
 		this->predicate.addRequest(requestVectors[2], id, str);
 	}
+	latch.unlock();
 }
 
 void StringIndex::trySequenceAccess(std::vector<StringIndexFile::AccessRequest>* requestVectors, char* &buffer, unsigned &buffer_size, bool real)
-- 
2.43.0


From 77747499732568c452d70ef59080bb318a8710c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 43/49] fix: a database dropped meanwhile is not locked through
 the end iterator

---
 GRPC/APIUtil.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 9c3a050..021b1bd 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1136,7 +1136,12 @@ bool APIUtil::trywrlock_database(const std::string &db_name)
     bool result = false;
     pthread_rwlock_rdlock(&already_build_map_lock);
     std::map<std::string, struct DatabaseInfo *>::iterator iter = already_build.find(db_name);
+    bool found = iter != already_build.end();
     pthread_rwlock_unlock(&already_build_map_lock);
+    if (!found) // dropped meanwhile
+    {
+        return false;
+    }
     if (pthread_rwlock_trywrlock(&(iter->second->db_lock)) == 0)
     {
         result = true;
@@ -1149,7 +1154,12 @@ bool APIUtil::rdlock_database(const std::string &db_name)
     bool result = false;
     pthread_rwlock_rdlock(&already_build_map_lock);
     std::map<std::string, struct DatabaseInfo *>::iterator iter = already_build.find(db_name);
+    bool found = iter != already_build.end();
     pthread_rwlock_unlock(&already_build_map_lock);
+    if (!found) // dropped meanwhile
+    {
+        return false;
+    }
     if (pthread_rwlock_rdlock(&(iter->second->db_lock)) == 0)
     {
         result = true;
@@ -1162,7 +1172,12 @@ bool APIUtil::unlock_database(const std::string &db_name)
     bool result = false;
     pthread_rwlock_rdlock(&already_build_map_lock);
     std::map<std::string, struct DatabaseInfo *>::iterator iter = already_build.find(db_name);
+    bool found = iter != already_build.end();
     pthread_rwlock_unlock(&already_build_map_lock);
+    if (!found) // dropped meanwhile
+    {
+        return false;
+    }
     if (pthread_rwlock_unlock(&(iter->second->db_lock)) == 0)
     {
         result = true;
-- 
2.43.0


From 6a697c678220df798b7c81498352834ff51f9f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 44/49] fix: an account deleted meanwhile has no privileges
 instead of crashing the server

---
 GRPC/APIUtil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 021b1bd..5369227 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1803,6 +1803,11 @@ bool APIUtil::check_privilege(const std::string& username, const std::string& ty
 	pthread_rwlock_rdlock(&users_map_lock);
 	std::map<std::string, struct DBUserInfo *>::iterator it = users.find(username);
 	int check_result = 0;
+	if(it == users.end()) // deleted meanwhile
+	{
+		pthread_rwlock_unlock(&users_map_lock);
+		return 0;
+	}
 	if(type == "query" || type == "monitor")
 	{
 		pthread_rwlock_rdlock(&(it->second->query_priv_set_lock));
-- 
2.43.0


From adfedc3c46e24dd5d7f6018913dfe45b8416dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 45/49] fix: monitoring a database dropped meanwhile does not
 lock through a null entry

---
 GRPC/APIUtil.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 5369227..054c12e 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -660,6 +660,8 @@ bool APIUtil::trywrlock_databaseinfo(DatabaseInfo *dbinfo)
 
 bool APIUtil::rdlock_databaseinfo(DatabaseInfo* dbinfo)
 {
+    if (dbinfo == NULL)
+        return false;
     int rwlock_code = pthread_rwlock_rdlock(&(dbinfo->db_lock));
     if (rwlock_code == 0)
     {
-- 
2.43.0


From cdfcb47870c551abaa2083ecc00843cb9553396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 46/49] fix: an export to a file that cannot be created is
 refused

---
 Main/ghttp.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 7646f9a..524e697 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -2511,6 +2511,13 @@ void export_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 		}
 		SLOG_DEBUG("export_path: " + db_path);
 		FILE *ofp = fopen(db_path.c_str(), "w");
+		if (ofp == NULL)
+		{
+			error = "open export file error.";
+			apiUtil->unlock_database(db_name); // unlock
+			sendResponseMsg(1005, error, operation, request, response);
+			return;
+		}
 		current_database->export_db(ofp);
 		fflush(ofp);
 		fclose(ofp);
-- 
2.43.0


From 854cf331d8c7498dac7cafbfe53ff63a4c1cdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 47/49] fix: a log file that cannot be opened is reported
 instead of used through a null pointer

---
 GRPC/APIUtil.cpp | 16 ++++++++++++++++
 Util/Util.cpp    | 22 ++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 054c12e..32eadbd 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -2371,6 +2371,12 @@ int APIUtil::add_transactionlog(std::string db_name, std::string user, std::stri
 {
     pthread_rwlock_wrlock(&transactionlog_lock);
     FILE* fp = fopen(TRANSACTION_LOG_PATH, "a");
+    if (fp == NULL)
+    {
+        SLOG_ERROR("open transaction log error.");
+        pthread_rwlock_unlock(&transactionlog_lock);
+        return 1;
+    }
     struct TransactionLogInfo logInfo(db_name, TID, user, state, begin_time, end_time);
     string rec = logInfo.toJSON();
     rec.push_back('\n');
@@ -2385,6 +2391,16 @@ int APIUtil::update_transactionlog(std::string TID, std::string state, std::stri
     pthread_rwlock_wrlock(&transactionlog_lock);
     FILE* fp = fopen(TRANSACTION_LOG_PATH, "r");
     FILE* fp1 = fopen(TRANSACTION_LOG_TEMP_PATH, "w");
+    if (fp == NULL || fp1 == NULL)
+    {
+        SLOG_ERROR("open transaction log error.");
+        if (fp != NULL)
+            fclose(fp);
+        if (fp1 != NULL)
+            fclose(fp1);
+        pthread_rwlock_unlock(&transactionlog_lock);
+        return 1;
+    }
     char readBuffer[0xffff];
     int ret = 0;
     struct TransactionLogInfo *logInfo = nullptr;
diff --git a/Util/Util.cpp b/Util/Util.cpp
index 5d0c174..70f43b4 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -2531,6 +2531,12 @@ Util::add_backuplog(string db_name)
     if(has_record_backuplog(db_name)) return 1;
     pthread_rwlock_wrlock(&backuplog_lock);
     FILE* fp = fopen(BACKUP_LOG_PATH, "a");
+    if (fp == NULL)
+    {
+        SLOG_ERROR("open backup log error.");
+        pthread_rwlock_unlock(&backuplog_lock);
+        return -1;
+    }
     Document document;
     document.SetObject();
     Document::AllocatorType &allocator = document.GetAllocator();
@@ -2565,6 +2571,16 @@ Util::delete_backuplog(string db_name)
     pthread_rwlock_wrlock(&backuplog_lock);
     FILE* fp = fopen(BACKUP_LOG_PATH, "r");
     FILE* fp1 = fopen(BACKUP_LOG_TMEP_PATH, "w");
+    if (fp == NULL || fp1 == NULL)
+    {
+        SLOG_ERROR("open backup log error.");
+        if (fp != NULL)
+            fclose(fp);
+        if (fp1 != NULL)
+            fclose(fp1);
+        pthread_rwlock_unlock(&backuplog_lock);
+        return -1;
+    }
     char readBuffer[0xffff];
     int ret = 1;
     while(fgets(readBuffer, 1024, fp)) {
@@ -2690,6 +2706,12 @@ Util::has_record_backuplog(string db_name)
     pthread_rwlock_rdlock(&backuplog_lock);
     if(db_name == "system") return true;
     FILE* fp = fopen(BACKUP_LOG_PATH, "r");
+    if (fp == NULL)
+    {
+        SLOG_ERROR("open backup log error.");
+        pthread_rwlock_unlock(&backuplog_lock);
+        return false;
+    }
     char readBuffer[0xffff];
     while(fgets(readBuffer, 1024, fp)) {
         string rec = readBuffer;
-- 
2.43.0


From e8764e87cb3507f5a85df60deaf951dcd7d11dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:10 +0000
Subject: [PATCH 48/49] fix: names and passwords that would be read as
 statements or shell commands are refused

---
 GRPC/APIUtil.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 32eadbd..fc336c8 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1229,7 +1229,20 @@ std::string APIUtil::check_param_value(const string& paramname, const string& va
 		result = "the value of " + paramname + " can not be empty!";
 		return result;
 	}
-	if (paramname == "db_name")
+	// a name becomes part of paths, of shell commands and of statements on the system database
+	if ((paramname == "db_name" || paramname == "new_name" || paramname == "op_username") 
+		&& value.find_first_of("<>\"'`\\|&;$(){}[]*?!#~^/ \t\r\n") != string::npos)
+	{
+		result = "the value of " + paramname + " contains illegal characters!";
+		return result;
+	}
+	// a password becomes a literal of a statement on the system database
+	if (paramname == "op_password" && value.find_first_of("\"\\\r\n") != string::npos)
+	{
+		result = "the value of " + paramname + " contains illegal characters!";
+		return result;
+	}
+	if (paramname == "db_name" || paramname == "new_name")
 	{
 		string database = value;
 		if (database == SYSTEM_DB_NAME)
-- 
2.43.0


From 6b52b384edbee735707dd44d7ff5ca368b8bb068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:10 +0000
Subject: [PATCH 49/49] fix: the paths of a backup reach the shell as one word

---
 GRPC/APIUtil.cpp |  2 +-
 Main/ghttp.cpp   |  4 ++--
 Util/Util.cpp    | 15 +++++++++++++++
 Util/Util.h      |  1 +
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index fc336c8..569952d 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -583,7 +583,7 @@ int APIUtil::db_copy(string src_path, string dest_path)
         #endif
         util.create_dirs(dest_path);
     }
-    sys_cmd = "cp -r " + src_path + ' ' + dest_path;
+    sys_cmd = "cp -r " + util.shell_quote(src_path) + ' ' + util.shell_quote(dest_path);
     system(sys_cmd.c_str());
     return 0; // success
 }
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 524e697..5e325ca 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1892,7 +1892,7 @@ void backup_thread_new(const shared_ptr<HttpServer::Request> &request, const sha
 			string sys_cmd, _path;
 			apiUtil->string_suffix(path, '/');
 			_path = path + new_folder;
-			sys_cmd = "mv " + default_backup_path + "/" + db_name + _db_suffix + " " + _path;
+			sys_cmd = "mv " + default_backup_path + "/" + db_name + _db_suffix + " " + Util::shell_quote(_path);
 			system(sys_cmd.c_str());
 
 			SLOG_DEBUG("database backup done: " + db_name);
@@ -2057,7 +2057,7 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			Util::remove_path(db_path);
 			// mv backup folder to database folder
 			string folder_name = Util::get_folder_name(path, db_name);
-			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
+			string sys_cmd = "mv " + Util::shell_quote(_db_home + "/" + folder_name) + " " + db_path;
 			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
 			
diff --git a/Util/Util.cpp b/Util/Util.cpp
index 70f43b4..b098afc 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -1444,6 +1444,21 @@ Util::getItemsFromDir(string _path)
 //http://www.cnblogs.com/sky-heaven/p/4687489.html
 //
 //BETTER: sysytem() may have some risks, using popen() instead?
+// one word of a shell command, whatever it contains
+std::string
+Util::shell_quote(const string& _text)
+{
+    string ret = "'";
+    for (size_t i = 0; i < _text.size(); i++)
+    {
+        if (_text[i] == '\'')
+            ret += "'\\''";
+        else
+            ret += _text[i];
+    }
+    return ret + "'";
+}
+
 string
 Util::getSystemOutput(string cmd)
 {
diff --git a/Util/Util.h b/Util/Util.h
index faca7f2..a5fa8f5 100644
--- a/Util/Util.h
+++ b/Util/Util.h
@@ -429,6 +429,7 @@ public:
 
 	static std::string getQueryFromFile(const char* _file_path); 
 	static std::string getSystemOutput(std::string cmd);
+	static std::string shell_quote(const std::string& _text);
 	static std::string getExactPath(const char* path);
 	static std::string getItemsFromDir(std::string path);
 	static void logging(std::string _str);
-- 
2.43.0

