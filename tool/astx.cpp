// astx: exports the fully instantiated clang AST of a driver translation unit as JSON.
// Every function reachable from the functions defined in the main file is exported with its body,
// exactly as clang's semantic analysis resolved it (templates instantiated, overloads resolved,
// implicit conversions explicit).  Functions of the standard library are exported by signature only.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
using namespace clang::tooling;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("astx");
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::init("-"), llvm::cl::cat(Cat));

class Exporter {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const void *, int> typeIds;
  std::vector<Value> types;
  std::map<const Decl *, int> declIds;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seenF;
  std::map<const RecordDecl *, int> recIds;
  std::vector<Value> records;
  std::deque<const RecordDecl*> recWork;
  Object globals;
  std::set<const VarDecl*> seenG;
public:
  Object functions;
  Exporter(ASTContext &C) : C(C), PP(C.getPrintingPolicy()) { PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; }

  bool isSys(const Decl *D) {
    // real system header (std library) : anything in namespace std or in system header
    SourceLocation L = C.getSourceManager().getExpansionLoc(D->getLocation());
    return L.isInvalid() || C.getSourceManager().isInSystemHeader(L);
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  std::string plainName(const NamedDecl *D) { return D->getQualifiedNameAsString(); }

  int typeId(QualType T) {
    T = T.getCanonicalType();
    bool cst = T.isConstQualified();
    T = T.getUnqualifiedType();
    const void *key = T.getAsOpaquePtr();
    if (cst) key = (const void*)((uintptr_t)key | 1);
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[key] = id;
    types.push_back(Value(nullptr));
    Object o;
    o["id"] = id;
    o["s"] = T.getAsString(PP);
    if (cst) o["const"] = true;
    const Type *t = T.getTypePtr();
    if (auto *bt = dyn_cast<BuiltinType>(t)) {
      if (bt->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (bt->isInteger()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(T); o["sg"] = bt->isSignedInteger(); }
      else if (bt->isFloatingPoint()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(T); }
      else if (bt->isVoidType()) o["k"] = "void";
      else o["k"] = "other";
    } else if (auto *et = dyn_cast<EnumType>(t)) {
      o["k"] = "int"; o["enum"] = true;
      QualType it2 = et->getDecl()->getIntegerType();
      if (!it2.isNull()) { o["w"] = (int64_t)C.getTypeSize(it2); o["sg"] = it2->isSignedIntegerType(); }
    } else if (t->isPointerType()) { o["k"] = "ptr"; o["to"] = typeId(t->getPointeeType()); }
    else if (t->isReferenceType()) { o["k"] = "ref"; o["to"] = typeId(t->getPointeeType()); }
    else if (auto *at = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["n"] = (int64_t)at->getSize().getZExtValue(); o["to"] = typeId(at->getElementType()); }
    else if (auto *rt = dyn_cast<RecordType>(t)) { o["k"] = "rec"; o["rec"] = recId(rt->getDecl()); }
    else o["k"] = "other";
    types[id] = Value(std::move(o));
    return id;
  }
  int recId(const RecordDecl *R0) {
    const RecordDecl *R = R0->getDefinition() ? R0->getDefinition() : R0;
    auto it = recIds.find(R);
    if (it != recIds.end()) return it->second;
    int id = records.size();
    recIds[R] = id;
    records.push_back(Value(nullptr));
    Object o;
    o["id"] = id;
    o["name"] = qname(R);
    o["plain"] = plainName(R);
    o["sys"] = isSys(R);
    o["union"] = R->isUnion();
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      Array ta;
      for (auto &A : S->getTemplateArgs().asArray()) emitTArg(A, ta);
      o["targs"] = std::move(ta);
    }
    if (R->isCompleteDefinition()) {
      Array bases;
      if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
        for (auto &B : CR->bases()) bases.push_back(typeId(B.getType()));
        o["poly"] = CR->isPolymorphic();
        if (CR->hasUserDeclaredCopyConstructor() || CR->hasUserDeclaredCopyAssignment())
          for (auto *M : CR->methods()) {
            if (M->isDefaulted() || M->isImplicit() || M->isDeleted()) continue;
            if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { if (C->isCopyConstructor()) o["ucopy"] = true; }
            else if (M->isCopyAssignmentOperator()) o["uassign"] = true;
          }
      }
      o["bases"] = std::move(bases);
      Array fs;
      for (auto *F : R->fields()) {
        Object fo; fo["n"] = F->getNameAsString(); fo["t"] = typeId(F->getType()); fo["id"] = declId(F);
        if (F->isMutable()) fo["mut"] = true;
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
    } else o["incomplete"] = true;
    records[id] = Value(std::move(o));
    return id;
  }
  void emitTArg(const TemplateArgument &A, Array &ta) {
    if (A.getKind() == TemplateArgument::Type) { Object x; x["t"] = typeId(A.getAsType()); ta.push_back(std::move(x)); }
    else if (A.getKind() == TemplateArgument::Integral) { Object x; llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10); x["i"] = std::string(s.str()); ta.push_back(std::move(x)); }
    else if (A.getKind() == TemplateArgument::Pack) { for (auto &B : A.pack_elements()) emitTArg(B, ta); }
    else { Object x; x["o"] = true; ta.push_back(std::move(x)); }
  }

  int funcRef(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && D) F = D;
    if (!seenF.count(F->getCanonicalDecl())) { seenF.insert(F->getCanonicalDecl()); work.push_back(F); }
    return declId(F);
  }

  std::string loc(SourceLocation L) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "?";
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "?";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }

  void globalVar(const VarDecl *V) {
    const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
    if (!seenG.insert(D).second) return;
    Object o; o["n"] = plainName(D); o["t"] = typeId(D->getType());
    o["sys"] = isSys(D);
    const Expr *I = D->getAnyInitializer();
    if (I && !isSys(D)) o["init"] = ex(I);
    globals[std::to_string(declId(V))] = std::move(o);
  }

  Object mk(const char *k, const Expr *E) { Object o; o["e"] = k; o["t"] = typeId(E->getType()); if (E->isGLValue()) o["lv"] = true; return o; }

  bool tryConst(const Expr *E, Object &o) {
    if (E->isValueDependent() || E->isGLValue()) return false;
    QualType T = E->getType();
    if (T->isIntegralOrEnumerationType()) {
      if (isa<IntegerLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E) || E->isEvaluatable(C)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
          o["e"] = "int"; o["v"] = std::string(s.str()); o["t"] = typeId(T);
          return true;
        }
      }
    } else if (T->isRealFloatingType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isFloat()) {
        const llvm::APFloat &F = R.Val.getFloat();
        o["e"] = "float"; o["t"] = typeId(T);
        if (F.isInfinity()) o["v"] = F.isNegative() ? "-inf" : "inf";
        else if (F.isNaN()) o["v"] = "nan";
        else { llvm::SmallString<64> s; F.toString(s, 60, 200); o["v"] = std::string(s.str()); }
        return true;
      }
    }
    return false;
  }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    {
      Object o;
      if (tryConst(E, o)) return o;
    }
    if (auto *X = dyn_cast<ParenExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      Object o = mk("mtmp", E); o["x"] = ex(X->getSubExpr()); return o;
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) { Object o = mk("str", E); if (X->getCharByteWidth() == 1) o["v"] = llvm::json::fixUTF8(X->getString()); return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object o = mk("lambda", E);
      const CXXMethodDecl *M = X->getCallOperator();
      Array ps;
      for (auto *P : M->parameters()) { Object p; p["id"] = declId(P); p["n"] = P->getNameAsString(); p["t"] = typeId(P->getType()); ps.push_back(std::move(p)); }
      o["params"] = std::move(ps);
      o["body"] = st(X->getBody());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { Object o = mk("null", E); return o; }
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      Object o = mk("var", E); o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["e"] = "func"; o["f"] = funcRef(F); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        o["d"] = declId(V);
        if (!V->isLocalVarDeclOrParm() ) { o["e"] = "gvar"; globalVar(V); }
        else if (V->isStaticLocal()) { o["static"] = true; }
        return o;
      }
      if (isa<EnumConstantDecl>(D)) { o["e"] = "int"; llvm::SmallString<32> s; cast<EnumConstantDecl>(D)->getInitVal().toString(s, 10); o["v"] = std::string(s.str()); return o; }
      o["e"] = "unsupported"; o["why"] = "DeclRef"; return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { Object o = mk("gvar", E); o["n"] = V->getNameAsString(); o["d"] = declId(V); globalVar(V); return o; }
      Object o = mk("mem", E); o["f"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["e"] = "memfn"; o["fid"] = funcRef(F); }
      else { o["fid"] = declId(D); o["rec"] = recId(cast<RecordDecl>(D->getDeclContext())); }
      o["b"] = ex(X->getBase()); o["arrow"] = X->isArrow();
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = mk("call", E);
      const CXXMethodDecl *M = X->getMethodDecl();
      o["loc"] = loc(E->getBeginLoc());
      if (!M) { o["e"] = "unsupported"; o["why"] = "memptr call"; return o; }
      o["f"] = funcRef(M);
      const Expr *Cal = X->getCallee()->IgnoreParens();
      bool arrow = false, virt = false;
      if (auto *ME = dyn_cast<MemberExpr>(Cal)) { arrow = ME->isArrow(); virt = M->isVirtual() && !ME->hasQualifier(); o["obj"] = ex(ME->getBase()); }
      else o["obj"] = ex(X->getImplicitObjectArgument());
      o["arrow"] = arrow; if (virt) o["virtual"] = true;
      Array a; for (auto *A : X->arguments()) a.push_back(ex(A));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = mk("call", E);
      o["loc"] = loc(E->getBeginLoc());
      o["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *F = X->getDirectCallee();
      if (!F) { o["e"] = "unsupported"; o["why"] = "opcall"; return o; }
      o["f"] = funcRef(F);
      Array a; unsigned i = 0;
      bool meth = false;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) meth = !M->isStatic();
      for (auto *A : X->arguments()) { if (i++ == 0 && meth) { o["obj"] = ex(A); o["arrow"] = false; } else a.push_back(ex(A)); }
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object o = mk("call", E);
      o["loc"] = loc(E->getBeginLoc());
      const FunctionDecl *F = X->getDirectCallee();
      Array a; for (auto *A : X->arguments()) a.push_back(ex(A));
      o["args"] = std::move(a);
      if (!F) { o["fn"] = ex(X->getCallee()); o["e"] = "icall"; return o; }
      o["f"] = funcRef(F);
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Object o = mk("ctor", E);
      o["loc"] = loc(E->getBeginLoc());
      const CXXConstructorDecl *D = X->getConstructor();
      o["f"] = funcRef(D);
      o["copy"] = D->isCopyOrMoveConstructor();
      if (X->isElidable()) o["elide"] = true;
      if (X->requiresZeroInitialization()) o["zero"] = true;
      Array a; for (auto *A : X->arguments()) a.push_back(ex(A));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { Object o = mk("unsupported", E); o["why"]="inhctor"; return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object o = mk("new", E);
      o["loc"] = loc(E->getBeginLoc());
      o["at"] = typeId(X->getAllocatedType());
      if (X->isArray()) { auto sz = X->getArraySize(); if (sz && *sz) o["n"] = ex(*sz); }
      if (X->getInitializer()) o["init"] = ex(X->getInitializer());
      if (X->getNumPlacementArgs()) o["placement"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = mk("delete", E); o["x"] = ex(X->getArgument()); o["array"] = X->isArrayForm(); o["loc"] = loc(E->getBeginLoc());
      if (auto *RD = X->getDestroyedType().isNull() ? nullptr : X->getDestroyedType()->getAsCXXRecordDecl())
        if (RD->hasDefinition() && RD->getDestructor() && !RD->hasTrivialDestructor()) { o["dtor"] = funcRef(RD->getDestructor()); if (RD->getDestructor()->isVirtual()) o["virtual"] = true; }
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Object o = mk("throw", E); o["loc"] = loc(E->getBeginLoc());
      if (X->getSubExpr()) o["tt"] = typeId(X->getSubExpr()->getType());
      return o;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      Object o = mk("cassign", E); o["loc"] = loc(E->getBeginLoc());
      std::string op = X->getOpcodeStr().str(); op.pop_back();
      o["op"] = op; o["l"] = ex(X->getLHS()); o["r"] = ex(X->getRHS());
      o["ct"] = typeId(X->getComputationResultType()); o["clt"] = typeId(X->getComputationLHSType());
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object o = mk("bin", E); o["loc"] = loc(E->getBeginLoc());
      o["op"] = X->getOpcodeStr().str(); o["l"] = ex(X->getLHS()); o["r"] = ex(X->getRHS());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o = mk("un", E); o["loc"] = loc(E->getBeginLoc());
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); o["post"] = X->isPostfix(); o["x"] = ex(X->getSubExpr());
      return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      Object o = mk("cond", E); o["c"] = ex(X->getCond()); o["a"] = ex(X->getTrueExpr()); o["b"] = ex(X->getFalseExpr()); return o;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      Object o = mk("cast", E); o["ck"] = X->getCastKindName(); o["x"] = ex(X->getSubExpr());
      if (isa<ExplicitCastExpr>(E)) o["expl"] = true;
      o["loc"] = loc(E->getBeginLoc());
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = mk("sub", E); o["b"] = ex(X->getBase()); o["i"] = ex(X->getIdx()); o["loc"] = loc(E->getBeginLoc()); return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      Object o = mk("initlist", E); Array a; for (unsigned i = 0; i < S->getNumInits(); ++i) a.push_back(ex(S->getInit(i)));
      o["a"] = std::move(a);
      if (S->hasArrayFiller()) o["fill"] = true;
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero", E);
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { Object o = mk("stdinit", E); o["x"] = ex(X->getSubExpr()); return o; }
    Object o = mk("unsupported", E); o["why"] = E->getStmtClassName(); o["loc"] = loc(E->getBeginLoc());
    return o;
  }

  Object varDecl(const VarDecl *V) {
    Object o; o["id"] = declId(V); o["n"] = V->getNameAsString(); o["t"] = typeId(V->getType());
    if (V->getInit()) o["init"] = ex(V->getInit());
    if (V->isStaticLocal()) o["static"] = true;
    return o;
  }

  Value st(const Stmt *S) {
    if (!S) return nullptr;
    Object o;
    o["loc"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { o["s"] = "block"; Array a; for (auto *B : X->body()) a.push_back(st(B)); o["b"] = std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["s"] = "decl"; Array a;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["v"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      o["s"] = "if"; if (X->getInit()) o["init"] = st(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = ex(X->getCond()); o["a"] = st(X->getThen()); o["b"] = st(X->getElse()); return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["s"] = "for"; o["init"] = st(X->getInit()); o["c"] = ex(X->getCond()); o["inc"] = ex(X->getInc()); o["b"] = st(X->getBody());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["s"] = "while"; o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["s"] = "do"; o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["s"] = "rangefor"; o["range"] = st(X->getRangeStmt()); o["begin"] = st(X->getBeginStmt()); o["end"] = st(X->getEndStmt());
      o["c"] = ex(X->getCond()); o["inc"] = ex(X->getInc()); o["var"] = st(X->getLoopVarStmt()); o["b"] = st(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["s"] = "return"; o["x"] = ex(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["s"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["s"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["s"] = "null"; return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { o["s"] = "switch"; o["c"] = ex(X->getCond()); o["b"] = st(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { o["s"] = "case"; o["v"] = ex(X->getLHS()); o["b"] = st(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["s"] = "default"; o["b"] = st(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["s"] = "try"; o["b"] = st(X->getTryBlock());
      Array h; for (unsigned i = 0; i < X->getNumHandlers(); ++i) { Object c; c["all"] = X->getHandler(i)->getExceptionDecl() == nullptr; c["b"] = st(X->getHandler(i)->getHandlerBlock()); h.push_back(std::move(c)); }
      o["h"] = std::move(h); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(S)) { o["s"] = "expr"; o["x"] = ex(X); return o; }
    o["s"] = "unsupported"; o["why"] = S->getStmtClassName(); return o;
  }

  void emitFunction(const FunctionDecl *F) {
    Object o;
    o["id"] = declId(F);
    o["name"] = qname(F);
    o["plain"] = plainName(F);
    o["short"] = F->getNameAsString();
    o["sys"] = isSys(F);
    o["ret"] = typeId(F->getReturnType());
    o["loc"] = loc(F->getLocation());
    Array ps;
    for (auto *P : F->parameters()) { Object p; p["id"] = declId(P); p["n"] = P->getNameAsString(); p["t"] = typeId(P->getType()); ps.push_back(std::move(p)); }
    o["params"] = std::move(ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) { Array ta; for (auto &A : TA->asArray()) emitTArg(A, ta); o["targs"] = std::move(ta); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recId(M->getParent()); o["static"] = M->isStatic(); o["const"] = M->isConst(); o["virtual"] = M->isVirtual();
    }
    if (F->isDefaulted() || F->isImplicit()) o["defaulted"] = true;
    if (auto *D = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"] = true; o["copyctor"] = D->isCopyOrMoveConstructor(); }
    if (auto *D = dyn_cast<CXXMethodDecl>(F)) if (D->isCopyAssignmentOperator() || D->isMoveAssignmentOperator()) o["copyassign"] = true;
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    const FunctionDecl *Def = nullptr;
    bool has = F->hasBody(Def) && Def;
    if (has && !isSys(F)) {
      F = Def;
      Array ps2;
      for (auto *P : F->parameters()) { Object p; p["id"] = declId(P); p["n"] = P->getNameAsString(); p["t"] = typeId(P->getType()); ps2.push_back(std::move(p)); }
      o["params"] = std::move(ps2);
      if (auto *D = dyn_cast<CXXConstructorDecl>(F)) {
        Array is;
        for (auto *I : D->inits()) {
          Object io;
          if (I->isAnyMemberInitializer()) { io["f"] = I->getAnyMember()->getNameAsString(); io["fid"] = declId(I->getAnyMember()); }
          else if (I->isBaseInitializer()) io["base"] = typeId(QualType(I->getBaseClass(), 0));
          else io["deleg"] = true;
          io["x"] = ex(I->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      o["body"] = st(F->getBody());
    }
    functions[std::to_string(declId(F))] = std::move(o);
  }

  void run(raw_ostream &os) {
    // roots: all functions defined in the main file
    struct V : RecursiveASTVisitor<V> {
      ASTContext &C; std::vector<const FunctionDecl *> fs;
      V(ASTContext &C) : C(C) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext() ) return true;
        if (F->isThisDeclarationADefinition() && C.getSourceManager().isInMainFile(C.getSourceManager().getExpansionLoc(F->getLocation()))) fs.push_back(F);
        return true;
      }
    } v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    Array roots;
    for (auto *F : v.fs) { roots.push_back(funcRef(F)); }
    while (!work.empty()) { auto *F = work.front(); work.pop_front(); emitFunction(F); }
    Object top;
    top["roots"] = std::move(roots);
    Array ta; for (auto &t : types) ta.push_back(std::move(t));
    top["types"] = std::move(ta);
    Array ra; for (auto &t : records) ra.push_back(std::move(t));
    top["records"] = std::move(ra);
    top["functions"] = std::move(functions);
    top["globals"] = std::move(globals);
    os << Value(std::move(top));
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter E(C);
    std::error_code ec;
    if (Out == "-") E.run(llvm::outs());
    else { llvm::raw_fd_ostream os(Out, ec); E.run(os); }
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << toString(P.takeError()); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
