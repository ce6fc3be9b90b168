// gx: dumps the type-resolved program (functions, clang::CFG, folded expression nodes, classes, enums)
// of one translation unit as JSON, for the rule engine in /verif/engine.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
static std::string Root = "/repo/";
static std::string OutPath;
static std::string jesc(llvm::StringRef s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
struct Dumper {
  ASTContext &C; SourceManager &SM; llvm::raw_ostream &OS;
  std::map<const Decl *, int> declIds;
  bool firstFn = true;
  Dumper(ASTContext &C, llvm::raw_ostream &OS) : C(C), SM(C.getSourceManager()), OS(OS) {}
  int declId(const Decl *D) { D = D->getCanonicalDecl(); auto it = declIds.find(D); if (it != declIds.end()) return it->second; int n = declIds.size() + 1; return declIds[D] = n; }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> p(F->getFileEntry().tryGetRealPathName());
    if (p.empty()) p = F->getName();
    return std::string(p.str());
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    if (f.compare(0, Root.size(), Root) != 0) return false;
    std::string r = f.substr(Root.size());
    return r.compare(0, 6, "tools/") != 0 && r.compare(0, 7, "_build/") != 0;
  }
  std::string rel(SourceLocation L) { std::string f = file(L); if (f.compare(0, Root.size(), Root) == 0) return f.substr(Root.size()); return f; }
  std::string usr(const Decl *D) { llvm::SmallString<128> b; if (index::generateUSRForDecl(D, b)) return ""; return std::string(b.str()); }
  std::string ty(QualType T) { if (T.isNull()) return ""; PrintingPolicy P(C.getLangOpts()); P.SuppressTagKeyword = true; P.Bool = true; return T.getAsString(P); }
  std::string cty(QualType T) { if (T.isNull()) return ""; return ty(T.getCanonicalType()); }
  // ---- per function
  std::vector<std::string> nodes; std::map<const Stmt *, int> nid;
  std::map<const Stmt *, int> tryOf; std::vector<const CXXTryStmt *> trys; std::map<const CXXTryStmt *, int> tryParent, tryIdx;
  const Expr *fold(const Expr *E) {
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *I = dyn_cast<ImplicitCastExpr>(E)) {
        if (I->getCastKind() == CK_UserDefinedConversion) { E = I->getSubExpr(); continue; }
        E = I->getSubExpr();
      }
      else if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
        if (auto *F = dyn_cast<CXXFunctionalCastExpr>(E)) { E = F->getSubExpr(); continue; }
        E = X->getSubExpr(); }
      else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) E = M->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(E)) E = B->getSubExpr();
      else if (auto *W = dyn_cast<ExprWithCleanups>(E)) E = W->getSubExpr();
      else if (auto *K = dyn_cast<ConstantExpr>(E)) E = K->getSubExpr();
      else if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) E = D->getExpr();
      else if (auto *D2 = dyn_cast<CXXDefaultInitExpr>(E)) E = D2->getExpr();
      else if (auto *S = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = S->getReplacement();
      else if (auto *SI = dyn_cast<CXXStdInitializerListExpr>(E)) E = SI->getSubExpr();
      else if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
        // copy/move construction and implicit conversions through one argument keep only the source for copies
        auto *CD = CE->getConstructor();
        if (CD->isCopyOrMoveConstructor() && CE->getNumArgs() >= 1) { E = CE->getArg(0); continue; }
        return E;
      }
      else return E;
    }
  }
  int node(const Stmt *S) {
    if (!S) return -1;
    if (auto *E = dyn_cast<Expr>(S)) S = fold(E);
    auto it = nid.find(S); if (it != nid.end()) return it->second;
    int id = nodes.size(); nodes.push_back(""); nid[S] = id;
    std::string o = "{\"l\":" + std::to_string(line(S->getBeginLoc()));
    auto add = [&](const char *k, const std::string &v) { o += std::string(",\"") + k + "\":" + v; };
    auto adds = [&](const char *k, llvm::StringRef v) { add(k, jesc(v)); };
    auto list = [&](const char *k, std::vector<int> v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } add(k, s + "]"); };
    auto T = tryOf.find(S); if (T != tryOf.end()) add("try", std::to_string(T->second));
    if (auto *E = dyn_cast<Expr>(S)) {
      // constants
      Expr::EvalResult R;
      if (!E->isValueDependent() && !isa<CXXConstructExpr>(E) && !isa<StringLiteral>(E) && E->getType()->isIntegralOrEnumerationType() && !E->containsErrors() && E->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> b; R.Val.getInt().toString(b, 10);
        add("c", std::string(b.str()));
      }
    }
    if (auto *R = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *D = R->getDecl();
      adds("k", "ref"); adds("n", D->getNameAsString());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        adds("d", isa<ParmVarDecl>(V) ? "param" : V->isLocalVarDecl() ? (V->isStaticLocal() ? "slocal" : "local") : "global");
        add("v", std::to_string(declId(V)));
        if (!V->isLocalVarDeclOrParm()) adds("q", V->getQualifiedNameAsString());
      } else if (isa<EnumConstantDecl>(D)) { adds("d", "enum"); adds("q", D->getQualifiedNameAsString()); }
      else if (isa<FunctionDecl>(D)) { adds("d", "func"); adds("q", D->getQualifiedNameAsString()); adds("u", usr(D)); }
      else adds("d", "other");
      adds("t", cty(R->getType()));
    } else if (auto *M = dyn_cast<MemberExpr>(S)) {
      if (isa<CXXMethodDecl>(M->getMemberDecl())) { adds("k", "mref"); adds("q", M->getMemberDecl()->getQualifiedNameAsString()); }
      else { adds("k", "mem"); adds("n", M->getMemberDecl()->getNameAsString()); adds("q", M->getMemberDecl()->getQualifiedNameAsString()); adds("t", cty(M->getType())); }
      add("b", std::to_string(node(M->getBase()))); if (M->isArrow()) add("a", "1");
    } else if (auto *CE = dyn_cast<CallExpr>(S)) {
      adds("k", "call");
      const FunctionDecl *FD = CE->getDirectCallee();
      std::vector<int> args;
      if (FD) { adds("f", FD->getQualifiedNameAsString()); adds("u", usr(FD)); if (FD->getReturnType()->isReferenceType()) add("rr", "1");
        std::string pr = ""; for (auto *p : FD->parameters()) { QualType PT = p->getType(); if (PT->isReferenceType() && !PT->getPointeeType().isConstQualified()) pr += "r"; else if (PT->isPointerType() && !PT->getPointeeType().isConstQualified()) pr += "p"; else pr += "v"; } adds("pm", pr); }
      else { adds("f", ""); add("fn", std::to_string(node(CE->getCallee()))); }
      unsigned i0 = 0;
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(S)) {
        add("o", std::to_string(node(MC->getImplicitObjectArgument())));
        if (auto *MD = MC->getMethodDecl()) { if (MD->isVirtual()) add("virt", "1"); if (MD->isConst()) add("cm", "1"); }
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) if (ME->isArrow()) add("a", "1");
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) {
        adds("op", getOperatorSpelling(OC->getOperator()));
        if (FD && isa<CXXMethodDecl>(FD) && OC->getNumArgs() > 0) { add("o", std::to_string(node(OC->getArg(0)))); i0 = 1; if (cast<CXXMethodDecl>(FD)->isConst()) add("cm", "1"); }
      }
      for (unsigned i = i0; i < CE->getNumArgs(); i++) args.push_back(node(CE->getArg(i)));
      list("args", args); adds("t", cty(CE->getType()));
      if (CE->isLValue()) add("lv", "1");
    } else if (auto *CC = dyn_cast<CXXConstructExpr>(S)) {
      adds("k", "ctor"); adds("f", CC->getConstructor()->getQualifiedNameAsString()); adds("u", usr(CC->getConstructor())); adds("t", cty(CC->getType()));
      std::vector<int> a; for (auto *x : CC->arguments()) a.push_back(node(x)); list("args", a);
    } else if (auto *NE = dyn_cast<CXXNewExpr>(S)) {
      adds("k", "new"); adds("t", cty(NE->getAllocatedType())); if (NE->isArray()) { add("arr", "1"); if (auto sz = NE->getArraySize()) add("sz", std::to_string(node(*sz))); }
      std::vector<int> a; if (auto *c = NE->getConstructExpr()) { adds("u", usr(c->getConstructor())); for (auto *x : c->arguments()) a.push_back(node(x)); } list("args", a);
    } else if (auto *DE = dyn_cast<CXXDeleteExpr>(S)) { adds("k", "delete"); list("args", {node(DE->getArgument())}); adds("t", cty(DE->getDestroyedType())); 
    } else if (auto *L = dyn_cast<StringLiteral>(S)) { adds("k", "str"); if (L->getCharByteWidth() == 1) adds("s", L->getString()); else adds("s", "");
    } else if (isa<IntegerLiteral>(S) || isa<CXXBoolLiteralExpr>(S) || isa<CharacterLiteral>(S)) { adds("k", "int"); if (isa<CXXBoolLiteralExpr>(S)) add("bl", "1");
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { adds("k", "null");
    } else if (isa<CXXThisExpr>(S)) { adds("k", "this"); adds("t", cty(cast<CXXThisExpr>(S)->getType()));
    } else if (auto *B = dyn_cast<BinaryOperator>(S)) {
      adds("k", B->isAssignmentOp() ? "asg" : "bin"); adds("op", B->getOpcodeStr()); list("args", {node(B->getLHS()), node(B->getRHS())}); adds("t", cty(B->getType()));
    } else if (auto *U = dyn_cast<UnaryOperator>(S)) {
      adds("k", "un"); std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); if (U->isPostfix()) op = "p" + op; adds("op", op); list("args", {node(U->getSubExpr())});
    } else if (auto *Q = dyn_cast<ConditionalOperator>(S)) { adds("k", "cond"); list("args", {node(Q->getCond()), node(Q->getTrueExpr()), node(Q->getFalseExpr())});
    } else if (auto *A = dyn_cast<ArraySubscriptExpr>(S)) { adds("k", "idx"); list("args", {node(A->getBase()), node(A->getIdx())}); adds("t", cty(A->getType()));
    } else if (auto *DS = dyn_cast<DeclStmt>(S)) {
      adds("k", "decl"); std::string s = "["; bool f = true;
      for (auto *D : DS->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
        if (!f) s += ","; f = false;
        s += "{\"v\":" + std::to_string(declId(V)) + ",\"n\":" + jesc(V->getNameAsString()) + ",\"t\":" + jesc(cty(V->getType())) + (V->getType()->isReferenceType() ? ",\"ref\":1" : "") + (V->isStaticLocal() ? ",\"st\":1" : "") + ",\"e\":" + std::to_string(V->getInit() ? node(V->getInit()) : -1) + "}";
      }
      add("vars", s + "]");
    } else if (auto *RS = dyn_cast<ReturnStmt>(S)) { adds("k", "ret"); list("args", RS->getRetValue() ? std::vector<int>{node(RS->getRetValue())} : std::vector<int>{});
    } else if (auto *TE = dyn_cast<CXXThrowExpr>(S)) { adds("k", "throw"); adds("t", TE->getSubExpr() ? cty(TE->getSubExpr()->getType()) : ""); list("args", TE->getSubExpr() ? std::vector<int>{node(TE->getSubExpr())} : std::vector<int>{});
    } else if (auto *LE = dyn_cast<LambdaExpr>(S)) { adds("k", "lambda"); adds("u", usr(LE->getCallOperator())); add("lam", std::to_string(declId(LE->getCallOperator())));
      std::vector<int> a; for (auto it2 = LE->capture_init_begin(); it2 != LE->capture_init_end(); ++it2) if (*it2) a.push_back(node(*it2)); list("args", a);
    } else if (auto *IL = dyn_cast<InitListExpr>(S)) { adds("k", "ilist"); std::vector<int> a; for (auto *x : IL->inits()) a.push_back(node(x)); list("args", a); adds("t", cty(IL->getType()));
    } else if (auto *SZ = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { adds("k", "sizeof"); adds("st", SZ->isArgumentType() ? cty(SZ->getArgumentType()) : cty(SZ->getArgumentExpr()->getType())); if (!SZ->isArgumentType()) list("args", {node(SZ->getArgumentExpr())});
    } else {
      adds("k", "other"); adds("n", S->getStmtClassName()); std::vector<int> a;
      for (auto *ch : S->children()) if (ch && isa<Expr>(ch)) a.push_back(node(ch));
      list("args", a);
    }
    nodes[id] = o + "}";
    return id;
  }
  void walkTry(const Stmt *S, int cur) {
    if (!S) return;
    if (isa<LambdaExpr>(S)) { tryOf[S] = cur; return; }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      int me = trys.size(); trys.push_back(T); tryParent[T] = cur; tryIdx[T] = me;
      walkTry(T->getTryBlock(), me);
      for (unsigned i = 0; i < T->getNumHandlers(); i++) walkTry(T->getHandler(i)->getHandlerBlock(), cur);
      return;
    }
    if (cur >= 0) tryOf[S] = cur;
    for (auto *ch : S->children()) walkTry(ch, cur);
  }
  void fn(const FunctionDecl *FD) {
    const Stmt *Body = FD->getBody(); if (!Body) return;
    nodes.clear(); nid.clear(); tryOf.clear(); trys.clear(); tryParent.clear(); tryIdx.clear();
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false; BO.AddEHEdges = false; BO.PruneTriviallyFalseEdges = true; BO.AddCXXDefaultInitExprInCtors = false;
    walkTry(Body, -1);
    std::unique_ptr<CFG> cfg = CFG::buildCFG(FD, const_cast<Stmt *>(Body), &C, BO);
    OS << (firstFn ? "" : ",") << "\n{\"q\":" << jesc(FD->getQualifiedNameAsString()) << ",\"u\":" << jesc(usr(FD)) << ",\"did\":" << declId(FD) << ",\"file\":" << jesc(rel(FD->getLocation())) << ",\"l\":" << line(FD->getLocation()) << ",\"rt\":" << jesc(cty(FD->getReturnType()));
    firstFn = false;
    if (FD->getStorageClass() == SC_Static) OS << ",\"static\":1";
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) { OS << ",\"cls\":" << jesc(MD->getParent()->getQualifiedNameAsString()) << ",\"acc\":" << (int)MD->getAccess(); if (MD->isVirtual()) OS << ",\"virt\":1"; if (MD->getParent()->isLambda()) OS << ",\"lambda\":1"; if (isa<CXXConstructorDecl>(MD)) OS << ",\"ctor\":1"; if (isa<CXXDestructorDecl>(MD)) OS << ",\"dtor\":1"; 
      if (MD->isVirtual()) { OS << ",\"over\":["; bool f2=true; for (auto *o : MD->overridden_methods()) { OS << (f2?"":",") << jesc(usr(o)); f2=false; } OS << "]"; } }
    OS << ",\"params\":[";
    bool f = true;
    for (auto *P : FD->parameters()) { OS << (f ? "" : ",") << "{\"v\":" << declId(P) << ",\"n\":" << jesc(P->getNameAsString()) << ",\"t\":" << jesc(cty(P->getType())) << (P->getType()->isReferenceType() ? ",\"ref\":1" : "") << "}"; f = false; }
    OS << "]";
    if (!cfg) { OS << ",\"nocfg\":1}"; return; }
    std::string bs; std::map<const CXXCatchStmt *, int> catchBlock;
    std::string allb;
    for (const CFGBlock *B : *cfg) {
      std::string o = "{\"id\":" + std::to_string(B->getBlockID()) + ",\"e\":[";
      bool first = true; auto emit = [&](const std::string &s) { if (!first) o += ","; first = false; o += s; };
      std::set<int> seen;
      if (const Stmt *Lb = B->getLabel()) if (auto *CS = dyn_cast<CXXCatchStmt>(Lb)) catchBlock[CS] = B->getBlockID();
      for (const CFGElement &El : *B) {
        if (auto St = El.getAs<CFGStmt>()) {
          const Stmt *S = St->getStmt();
          if (auto *E = dyn_cast<Expr>(S)) { const Expr *G = fold(E); if (G != E) { int n = node(S); if (seen.insert(n).second) emit(std::to_string(n)); continue; } }
          int n = node(S); if (seen.insert(n).second) emit(std::to_string(n));
        } else if (auto I = El.getAs<CFGInitializer>()) {
          const CXXCtorInitializer *In = I->getInitializer();
          std::string fld = In->isAnyMemberInitializer() ? In->getAnyMember()->getQualifiedNameAsString() : "";
          emit("{\"k\":\"init\",\"q\":" + jesc(fld) + ",\"x\":" + std::to_string(node(In->getInit())) + "}");
        } else if (auto Dt = El.getAs<CFGAutomaticObjDtor>()) {
          const VarDecl *V = Dt->getVarDecl();
          std::string du; if (const CXXRecordDecl *RD = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) if (RD->hasDefinition()) if (auto *dd = RD->getDestructor()) du = usr(dd);
          emit("{\"k\":\"dtor\",\"v\":" + std::to_string(declId(V)) + ",\"n\":" + jesc(V->getNameAsString()) + ",\"t\":" + jesc(cty(V->getType())) + ",\"u\":" + jesc(du) + ",\"l\":" + std::to_string(line(Dt->getTriggerStmt() ? Dt->getTriggerStmt()->getEndLoc() : V->getLocation())) + "}");
        }
      }
      o += "]";
      if (const Stmt *Lb = B->getLabel()) {
        if (auto *CS = dyn_cast<CaseStmt>(Lb)) { o += ",\"case\":["; Expr::EvalResult R; 
            // consecutive case labels share the block only when nested; dump the value
            if (CS->getLHS() && !CS->getLHS()->isValueDependent() && CS->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); o += std::string(b.str()); } o += "]"; }
        else if (isa<DefaultStmt>(Lb)) o += ",\"default\":1";
        else if (auto *CS2 = dyn_cast<CXXCatchStmt>(Lb)) { o += ",\"catch\":" + jesc(CS2->getExceptionDecl() ? cty(CS2->getExceptionDecl()->getType()) : "..."); if (CS2->getExceptionDecl()) o += ",\"cv\":" + std::to_string(declId(CS2->getExceptionDecl())); }
      }
      if (const Stmt *T = B->getTerminatorStmt()) {
        o += ",\"tk\":" + jesc(T->getStmtClassName());
        if (auto *BO2 = dyn_cast<BinaryOperator>(T)) o += ",\"to\":" + jesc(BO2->getOpcodeStr());
        if (const Stmt *Cn = B->getTerminatorCondition(false)) { if (isa<Expr>(Cn)) o += ",\"tc\":" + std::to_string(node(Cn)); }
        if (T->getBeginLoc().isValid()) o += ",\"tl\":" + std::to_string(line(T->getBeginLoc()));
      }
      if (B->hasNoReturnElement()) o += ",\"nr\":1";
      o += ",\"s\":["; bool f2 = true;
      for (auto It = B->succ_begin(); It != B->succ_end(); ++It) { if (!f2) o += ","; f2 = false; const CFGBlock *Sb = It->getReachableBlock(); o += Sb ? std::to_string(Sb->getBlockID()) : "-1"; }
      o += "]}";
      allb += (allb.empty() ? "" : ",") + o;
    }
    OS << ",\"entry\":" << cfg->getEntry().getBlockID() << ",\"exit\":" << cfg->getExit().getBlockID() << ",\"blocks\":[" << allb << "]";
    OS << ",\"trys\":[";
    for (size_t i = 0; i < trys.size(); i++) {
      OS << (i ? "," : "") << "{\"p\":" << tryParent[trys[i]] << ",\"h\":[";
      for (unsigned j = 0; j < trys[i]->getNumHandlers(); j++) { auto *H = trys[i]->getHandler(j); OS << (j ? "," : "") << "[" << jesc(H->getExceptionDecl() ? cty(H->getExceptionDecl()->getType()) : "...") << "," << (catchBlock.count(H) ? catchBlock[H] : -1) << "]"; }
      OS << "]}";
    }
    OS << "],\"nodes\":[";
    for (size_t i = 0; i < nodes.size(); i++) OS << (i ? "," : "") << nodes[i];
    OS << "]}";
  }
};
struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D; std::vector<const FunctionDecl *> fns; std::vector<const RecordDecl *> recs; std::vector<const EnumDecl *> enums; std::vector<const VarDecl *> globals;
  std::set<const Decl *> seen;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isDefaulted() || F->isInvalidDecl()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (seen.insert(F).second) fns.push_back(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) { auto *F = L->getCallOperator(); if (F && F->hasBody() && !F->isDependentContext() && D.inRoot(F->getLocation()) && seen.insert(F).second) fns.push_back(F); return true; }
  bool VisitRecordDecl(RecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isDependentContext() && D.inRoot(R->getLocation()) && !R->isLambda()) recs.push_back(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (E->isThisDeclarationADefinition() && D.inRoot(E->getLocation())) enums.push_back(E); return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->isFileVarDecl() && !V->getDeclContext()->isDependentContext() && D.inRoot(V->getLocation())) globals.push_back(V); return true; }
};
struct Cons : ASTConsumer {
  std::string in; Cons(std::string s) : in(s) {}
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC);
    Dumper D(C, OS); Visitor V(D); V.TraverseDecl(C.getTranslationUnitDecl());
    OS << "{\"tu\":" << jesc(in) << ",\"errors\":" << C.getDiagnostics().getNumErrors() << ",\"functions\":[";
    for (auto *F : V.fns) D.fn(F);
    OS << "],\n\"records\":["; bool f = true;
    for (auto *R : V.recs) { OS << (f ? "" : ",") << "\n{\"q\":" << jesc(R->getQualifiedNameAsString()) << ",\"file\":" << jesc(D.rel(R->getLocation())) << ",\"l\":" << D.line(R->getLocation()) << ",\"bases\":["; f = false;
      if (auto *CR = dyn_cast<CXXRecordDecl>(R)) { bool g = true; for (auto &b : CR->bases()) { OS << (g ? "" : ",") << jesc(D.cty(b.getType())); g = false; } }
      OS << "],\"fields\":["; bool g = true; for (auto *F : R->fields()) { OS << (g ? "" : ",") << "{\"n\":" << jesc(F->getNameAsString()) << ",\"t\":" << jesc(D.cty(F->getType())) << ",\"acc\":" << (int)F->getAccess() << "}"; g = false; } OS << "]}"; }
    OS << "],\n\"enums\":["; f = true;
    for (auto *E : V.enums) { OS << (f ? "" : ",") << "\n{\"q\":" << jesc(E->getQualifiedNameAsString()) << ",\"vals\":{"; f = false; bool g = true; for (auto *k : E->enumerators()) { llvm::SmallString<32> b; k->getInitVal().toString(b, 10); OS << (g ? "" : ",") << jesc(k->getNameAsString()) << ":" << b; g = false; } OS << "}}"; }
    OS << "],\n\"globals\":["; f = true;
    for (auto *G : V.globals) { OS << (f ? "" : ",") << "\n{\"q\":" << jesc(G->getQualifiedNameAsString()) << ",\"t\":" << jesc(D.cty(G->getType())) << ",\"file\":" << jesc(D.rel(G->getLocation())) << ",\"v\":" << D.declId(G); f = false;
      const Expr *I = G->getAnyInitializer(); if (I) { Expr::EvalResult R; const Expr *I2 = D.fold(I); if (auto *CE = dyn_cast<CXXConstructExpr>(I2)) if (CE->getNumArgs() >= 1) I2 = D.fold(CE->getArg(0)); if (auto *SL = dyn_cast<StringLiteral>(I2)) { if (SL->getCharByteWidth() == 1) OS << ",\"s\":" << jesc(SL->getString()); } else if (!I->isValueDependent() && I->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C)) { llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); OS << ",\"c\":" << b; } }
      OS << "}"; }
    OS << "]}\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override { CI.getDiagnostics().setSuppressAllDiagnostics(false); return std::make_unique<Cons>(F.str()); } };
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
int main(int argc, char **argv) {
  // gx ROOT OUT FILE -- flags
  if (argc < 5) return 2;
  Root = argv[1]; if (Root.back() != '/') Root += '/'; OutPath = argv[2]; std::string in = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(Root, flags);
  tooling::ClangTool T(DB, {in});
  Fac F; int rc = T.run(&F);
  return rc == 0 ? 0 : 10;
}
