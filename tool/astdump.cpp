// Extracts, from the real sources, every function body / record / type that the
// verifier needs, with canonical types and resolved callees. It adds nothing
// and drops only: comments, uninstantiated templates, bodies of functions that
// are not defined in the repository.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <deque>
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string gRoot;

struct Dumper {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const void *, int> typeIdx;
  std::vector<json::Value> types;
  std::map<const Decl *, int> declIdx;
  std::map<const Decl *, bool> fnSeen, recSeen;
  std::deque<const FunctionDecl *> fnQueue;
  std::deque<const CXXRecordDecl *> recQueue;
  json::Array functions, records, vars;
  std::set<const Decl *> varSeen;

  Dumper(ASTContext &c) : C(c), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = false;
  }
  std::string locStr(SourceLocation L) {
    auto P = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(L));
    if (P.isInvalid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
  }
  bool inRepo(const Decl *D) {
    auto L = C.getSourceManager().getExpansionLoc(D->getLocation());
    auto P = C.getSourceManager().getPresumedLoc(L);
    if (P.isInvalid()) return false;
    llvm::StringRef F = P.getFilename();
    return F.starts_with(gRoot) || F.contains("unity.cpp");
  }
  int id(const Decl *D) {
    if (!D) return -1;
    D = D->getCanonicalDecl();
    auto it = declIdx.find(D);
    if (it != declIdx.end()) return it->second;
    int n = declIdx.size();
    declIdx[D] = n;
    return n;
  }
  json::Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return json::Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral: {
      llvm::SmallString<16> s; A.getAsIntegral().toString(s);
      return json::Object{{"v", std::string(s.str())}};
    }
    case TemplateArgument::Pack: {
      json::Array a;
      for (auto &x : A.pack_elements()) a.push_back(targ(x));
      return json::Object{{"pack", std::move(a)}};
    }
    default: return json::Object{{"o", 1}};
    }
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    T = T.getCanonicalType();
    const void *key = T.getAsOpaquePtr();
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int n = types.size();
    typeIdx[key] = n;
    types.push_back(nullptr);
    json::Object o;
    if (T.isConstQualified()) o["c"] = true;
    o["s"] = T.getAsString(PP);
    const Type *t = T.getTypePtr();
    if (auto *b = dyn_cast<BuiltinType>(t)) { o["k"] = "b"; o["n"] = T.getUnqualifiedType().getAsString(PP); }
    else if (auto *p = dyn_cast<PointerType>(t)) { o["k"] = "ptr"; o["t"] = type(p->getPointeeType()); }
    else if (auto *r = dyn_cast<ReferenceType>(t)) { o["k"] = "ref"; o["t"] = type(r->getPointeeType()); o["rv"] = isa<RValueReferenceType>(t); }
    else if (auto *e = dyn_cast<EnumType>(t)) { o["k"] = "enum"; o["n"] = e->getDecl()->getQualifiedNameAsString(); }
    else if (auto *rt = dyn_cast<RecordType>(t)) {
      auto *rd = dyn_cast<CXXRecordDecl>(rt->getDecl());
      o["k"] = "rec";
      o["r"] = id(rt->getDecl());
      o["n"] = rt->getDecl()->getQualifiedNameAsString();
      if (rd) {
        o["lam"] = rd->isLambda();
        o["repo"] = inRepo(rd);
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
          json::Array a;
          for (auto &x : sp->getTemplateArgs().asArray()) a.push_back(targ(x));
          o["args"] = std::move(a);
        }
        if (inRepo(rd)) enqueueRec(rd);
      }
    } else if (auto *ca = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["t"] = type(ca->getElementType()); o["n"] = (int64_t)ca->getSize().getZExtValue(); }
    else if (auto *fp = dyn_cast<FunctionProtoType>(t)) { o["k"] = "fn"; o["t"] = type(fp->getReturnType());
      json::Array a; for (auto p : fp->param_types()) a.push_back(type(p)); o["ps"] = std::move(a); }
    else { o["k"] = "other"; o["n"] = t->getTypeClassName(); }
    types[n] = std::move(o);
    return n;
  }
  void enqueueRec(const CXXRecordDecl *R) {
    if (!R) return;
    R = cast<CXXRecordDecl>(R->getCanonicalDecl());
    if (recSeen[R]) return;
    recSeen[R] = true;
    recQueue.push_back(R);
  }
  void enqueueFn(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    F->isDefined(Def);
    auto *K = cast<FunctionDecl>(F->getCanonicalDecl());
    if (fnSeen[K]) return;
    fnSeen[K] = true;
    fnQueue.push_back(F);
  }
  json::Value stmts(llvm::iterator_range<Stmt::const_child_iterator> r) {
    json::Array a;
    for (auto *s : r) a.push_back(stmt(s));
    return a;
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object o{{"id", id(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["init"] = stmt(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      json::Array a;
      for (auto *b : D->bindings()) {
        json::Object bo{{"id", id(b)}, {"n", b->getNameAsString()}, {"t", type(b->getType())}};
        if (auto *hv = b->getHoldingVar()) bo["hold"] = varDecl(hv);
        if (b->getBinding()) bo["e"] = stmt(b->getBinding());
        a.push_back(std::move(bo));
      }
      o["bindings"] = std::move(a);
    }
    return o;
  }
  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage()) return;
    auto *K = V->getCanonicalDecl();
    if (!varSeen.insert(K).second) return;
    const VarDecl *Def = V->getDefinition(); if (!Def) { const VarDecl *iv; if (V->getAnyInitializer(iv)) Def = iv; }
    if (!Def) Def = V;
    json::Object o{{"id", id(V)}, {"n", V->getQualifiedNameAsString()}, {"t", type(V->getType())}, {"repo", inRepo(V)}};
    if (inRepo(V) && Def->getInit() && !Def->getType()->isDependentType()) o["init"] = stmt(Def->getInit());
    if (Def->getInit() && !Def->getType()->isDependentType() && !Def->getInit()->isValueDependent()) {
      if (auto *v = const_cast<VarDecl*>(Def)->evaluateValue()) {
        if (v->isInt()) { llvm::SmallString<16> s; v->getInt().toString(s); o["cv"] = std::string(s.str()); }
        if (v->isFloat()) { llvm::SmallString<32> s; v->getFloat().toString(s); o["cv"] = std::string(s.str()); }
      }
    }
    vars.push_back(std::move(o));
  }
  json::Value fnRef(const FunctionDecl *F) {
    // reference to a function: id, qualified name; the definition is dumped when it is in the repository
    enqueueFn(F);
    return id(F);
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o;
    o["k"] = S->getStmtClassName();
    {
      auto P = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(S->getBeginLoc()));
      if (P.isValid()) o["l"] = (int64_t)P.getLine();
    }
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = type(E->getType());
      o["vk"] = E->isLValue() ? "l" : (E->isXValue() ? "x" : "r");
      if (!E->isValueDependent() && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E) && E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
        Expr::EvalResult R;
        if (isa<ConstantExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<CallExpr>(E))
          if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) { llvm::SmallString<16> s; R.Val.getInt().toString(s); o["cv"] = std::string(s.str()); }
      }
      if (auto *CE = dyn_cast<CallExpr>(E)) if (E->getType()->isFloatingType()) {
        llvm::APFloat F(0.0);
        if (CE->getNumArgs() == 0 && E->EvaluateAsFloat(F, C)) { llvm::SmallString<32> s; F.toString(s, 0, 0); o["cv"] = std::string(s.str()); }
      }
    }
    switch (S->getStmtClass()) {
    case Stmt::DeclRefExprClass: {
      auto *E = cast<DeclRefExpr>(S);
      auto *D = E->getDecl();
      o["d"] = id(D); o["dk"] = D->getDeclKindName(); o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) fnRef(F);
      if (auto *V = dyn_cast<VarDecl>(D)) if (V->hasGlobalStorage() ) global(V);
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<16> s; EC->getInitVal().toString(s); o["cv"] = std::string(s.str()); }
      if (auto *B = dyn_cast<BindingDecl>(D)) { (void)B; }
      return o;
    }
    case Stmt::MemberExprClass: {
      auto *E = cast<MemberExpr>(S);
      auto *D = E->getMemberDecl();
      o["d"] = id(D); o["n"] = D->getNameAsString(); o["arrow"] = E->isArrow(); o["dk"] = D->getDeclKindName();
      if (auto *F = dyn_cast<FunctionDecl>(D)) fnRef(F);
      if (auto *V = dyn_cast<VarDecl>(D)) global(V);
      o["b"] = stmt(E->getBase());
      return o;
    }
    case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: {
      auto *E = cast<CallExpr>(S);
      if (auto *F = E->getDirectCallee()) {
        o["fn"] = fnRef(F); o["n"] = F->getNameAsString(); o["qn"] = F->getQualifiedNameAsString();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["virt"] = M->isVirtual(); o["static"] = M->isStatic(); o["rec"] = id(M->getParent());
           o["rn"] = M->getParent()->getQualifiedNameAsString(); }
        if (auto *ta = F->getTemplateSpecializationArgs()) { json::Array a; for (auto &x : ta->asArray()) a.push_back(targ(x)); o["ta"] = std::move(a); }
      }
      if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) o["qual"] = ME->hasQualifier();
      o["callee"] = stmt(E->getCallee());
      json::Array a; for (auto *x : E->arguments()) a.push_back(stmt(x));
      o["args"] = std::move(a);
      return o;
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *E = cast<CXXConstructExpr>(S);
      auto *K = E->getConstructor();
      o["fn"] = fnRef(K);
      o["copy"] = K->isCopyConstructor(); o["move"] = K->isMoveConstructor(); o["def"] = K->isDefaultConstructor();
      o["elid"] = E->isElidable(); o["list"] = E->isListInitialization(); o["silist"] = E->isStdInitListInitialization();
      o["zero"] = E->requiresZeroInitialization();
      json::Array ps; for (auto *p : K->parameters()) ps.push_back(type(p->getType())); o["ps"] = std::move(ps);
      json::Array a; for (auto *x : E->arguments()) a.push_back(stmt(x));
      o["args"] = std::move(a);
      return o;
    }
    case Stmt::CXXInheritedCtorInitExprClass: o["fn"] = fnRef(cast<CXXInheritedCtorInitExpr>(S)->getConstructor()); return o;
    case Stmt::CXXDefaultArgExprClass: { auto *E = cast<CXXDefaultArgExpr>(S); o["c"] = json::Array{stmt(E->getExpr())}; return o; }
    case Stmt::CXXDefaultInitExprClass: { auto *E = cast<CXXDefaultInitExpr>(S); o["c"] = json::Array{stmt(E->getExpr())}; return o; }
    case Stmt::IntegerLiteralClass: { llvm::SmallString<16> s; cast<IntegerLiteral>(S)->getValue().toStringUnsigned(s); o["v"] = std::string(s.str()); return o; }
    case Stmt::CharacterLiteralClass: { o["v"] = std::to_string(cast<CharacterLiteral>(S)->getValue()); return o; }
    case Stmt::FloatingLiteralClass: { llvm::SmallString<32> s; cast<FloatingLiteral>(S)->getValue().toString(s, 0, 0); o["v"] = std::string(s.str()); return o; }
    case Stmt::CXXBoolLiteralExprClass: { o["v"] = cast<CXXBoolLiteralExpr>(S)->getValue(); return o; }
    case Stmt::StringLiteralClass: { auto *E = cast<StringLiteral>(S); if (E->getCharByteWidth() == 1) o["v"] = json::fixUTF8(E->getString()); return o; }
    case Stmt::UnaryOperatorClass: { auto *E = cast<UnaryOperator>(S); o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str(); o["post"] = E->isPostfix(); break; }
    case Stmt::BinaryOperatorClass: { auto *E = cast<BinaryOperator>(S); o["op"] = E->getOpcodeStr().str(); break; }
    case Stmt::CompoundAssignOperatorClass: { auto *E = cast<CompoundAssignOperator>(S); o["op"] = E->getOpcodeStr().str(); o["ct"] = type(E->getComputationLHSType()); break; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXDynamicCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: {
      auto *E = cast<CastExpr>(S);
      o["ck"] = E->getCastKindName();
      if (auto *F = E->getConversionFunction()) if (auto *FD = dyn_cast<FunctionDecl>(F)) fnRef(FD);
      break;
    }
    case Stmt::LambdaExprClass: {
      auto *E = cast<LambdaExpr>(S);
      auto *R = E->getLambdaClass();
      o["rec"] = id(R); o["fn"] = id(E->getCallOperator());
      o["generic"] = E->isGenericLambda();
      if (!E->isGenericLambda()) enqueueFn(E->getCallOperator());
      json::Array caps;
      auto fi = R->field_begin();
      auto ii = E->capture_init_begin();
      for (auto &cap : E->captures()) {
        json::Object co;
        co["f"] = id(*fi);
        co["this"] = cap.capturesThis();
        co["kind"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : (cap.getCaptureKind() == LCK_ByCopy ? "copy" : (cap.getCaptureKind() == LCK_This ? "this" : "starthis"));
        if (cap.capturesVariable()) { co["d"] = id(cap.getCapturedVar()); co["n"] = cap.getCapturedVar()->getNameAsString(); co["t"] = type((*fi)->getType()); co["initcap"] = E->isInitCapture(&cap); }
        co["init"] = stmt(*ii);
        caps.push_back(std::move(co));
        ++fi; ++ii;
      }
      o["caps"] = std::move(caps);
      return o;
    }
    case Stmt::DeclStmtClass: {
      json::Array a;
      for (auto *D : cast<DeclStmt>(S)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) { a.push_back(varDecl(V)); if (V->isStaticLocal()) global(V); }
        else if (isa<TypedefNameDecl>(D) || isa<StaticAssertDecl>(D) || isa<UsingDecl>(D)) {}
        else if (auto *R = dyn_cast<CXXRecordDecl>(D)) { enqueueRec(R); for (auto *m : R->methods()) if (!m->isDependentContext()) enqueueFn(m); }
        else a.push_back(json::Object{{"unsupported", D->getDeclKindName()}});
      }
      o["decls"] = std::move(a);
      return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      o["init"] = stmt(F->getInit()); o["range"] = stmt(F->getRangeStmt()); o["begin"] = stmt(F->getBeginStmt()); o["end"] = stmt(F->getEndStmt());
      o["cond"] = stmt(F->getCond()); o["inc"] = stmt(F->getInc()); o["var"] = stmt(F->getLoopVarStmt()); o["body"] = stmt(F->getBody());
      return o;
    }
    case Stmt::ForStmtClass: { auto *F = cast<ForStmt>(S); o["init"] = stmt(F->getInit()); o["condvar"] = F->getConditionVariable() ? varDecl(F->getConditionVariable()) : json::Value(nullptr);
      o["cond"] = stmt(F->getCond()); o["inc"] = stmt(F->getInc()); o["body"] = stmt(F->getBody()); return o; }
    case Stmt::WhileStmtClass: { auto *F = cast<WhileStmt>(S); o["condvar"] = F->getConditionVariable() ? varDecl(F->getConditionVariable()) : json::Value(nullptr); o["cond"] = stmt(F->getCond()); o["body"] = stmt(F->getBody()); return o; }
    case Stmt::DoStmtClass: { auto *F = cast<DoStmt>(S); o["cond"] = stmt(F->getCond()); o["body"] = stmt(F->getBody()); return o; }
    case Stmt::IfStmtClass: {
      auto *F = cast<IfStmt>(S);
      o["init"] = stmt(F->getInit()); o["condvar"] = F->getConditionVariable() ? varDecl(F->getConditionVariable()) : json::Value(nullptr);
      o["constexpr"] = F->isConstexpr();
      o["cond"] = stmt(F->getCond()); o["then"] = stmt(F->getThen()); o["else"] = stmt(F->getElse());
      if (F->isConstexpr() && !F->getCond()->isValueDependent()) { Expr::EvalResult R; if (F->getCond()->EvaluateAsInt(R, C)) o["cexpr"] = R.Val.getInt().getBoolValue(); }
      return o;
    }
    case Stmt::SwitchStmtClass: { auto *F = cast<SwitchStmt>(S); o["init"] = stmt(F->getInit()); o["condvar"] = F->getConditionVariable() ? varDecl(F->getConditionVariable()) : json::Value(nullptr); o["cond"] = stmt(F->getCond()); o["body"] = stmt(F->getBody()); return o; }
    case Stmt::CaseStmtClass: { auto *F = cast<CaseStmt>(S); o["lhs"] = stmt(F->getLHS()); o["sub"] = stmt(F->getSubStmt()); return o; }
    case Stmt::DefaultStmtClass: { auto *F = cast<DefaultStmt>(S); o["sub"] = stmt(F->getSubStmt()); return o; }
    case Stmt::CXXTryStmtClass: {
      auto *F = cast<CXXTryStmt>(S); o["try"] = stmt(F->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < F->getNumHandlers(); ++i) { auto *H = F->getHandler(i); json::Object h; if (H->getExceptionDecl()) h["var"] = varDecl(H->getExceptionDecl()); h["body"] = stmt(H->getHandlerBlock()); a.push_back(std::move(h)); }
      o["handlers"] = std::move(a); return o;
    }
    case Stmt::CXXThisExprClass: return o;
    case Stmt::InitListExprClass: {
      auto *E = cast<InitListExpr>(S);
      if (E->isSemanticForm() == false && E->getSemanticForm()) E = E->getSemanticForm();
      json::Array a; for (auto *x : E->inits()) a.push_back(stmt(x)); o["c"] = std::move(a);
      return o;
    }
    case Stmt::SubstNonTypeTemplateParmExprClass: o["c"] = json::Array{stmt(cast<SubstNonTypeTemplateParmExpr>(S)->getReplacement())}; return o;
    default: break;
    }
    o["c"] = stmts(S->children());
    return o;
  }
  void emitFn(const FunctionDecl *F0) {
    const FunctionDecl *F = F0;
    const FunctionDecl *Def = nullptr;
    if (F0->isDefined(Def)) F = Def;
    json::Object o{{"id", id(F0)}, {"n", F->getNameAsString()}, {"qn", F->getQualifiedNameAsString()}, {"ret", type(F->getReturnType())}, {"loc", locStr(F->getLocation())}};
    bool repo = inRepo(F);
    o["repo"] = repo;
    json::Array ps;
    for (auto *p : F->parameters()) { json::Object po{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}}; ps.push_back(std::move(po)); }
    o["ps"] = std::move(ps);
    if (auto *ta = F->getTemplateSpecializationArgs()) { json::Array a; for (auto &x : ta->asArray()) a.push_back(targ(x)); o["ta"] = std::move(a); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = id(M->getParent()); o["rn"] = M->getParent()->getQualifiedNameAsString(); o["virt"] = M->isVirtual(); o["static"] = M->isStatic(); o["const"] = M->isConst(); o["pure"] = M->isPureVirtual();
      if (repo) enqueueRec(M->getParent());
      json::Array ov; for (auto *x : M->overridden_methods()) ov.push_back(fnRef(x)); o["ov"] = std::move(ov);
      o["implicit"] = M->isImplicit(); o["defaulted"] = M->isDefaulted(); o["deleted"] = M->isDeleted();
      o["lam"] = M->getParent()->isLambda();
      if (M->getParent()->isLambda() ) if (auto *prim = M->getPrimaryTemplate()) o["lamprim"] = id(prim->getTemplatedDecl());
      o["rt"] = type(C.getRecordType(M->getParent()));
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true; o["copy"] = K->isCopyConstructor(); o["move"] = K->isMoveConstructor(); o["dflt"] = K->isDefaultConstructor();
      if (repo && K->hasBody()) {
        json::Array ins;
        for (auto *I : K->inits()) {
          json::Object io;
          if (I->isBaseInitializer()) { io["base"] = type(QualType(I->getBaseClass(), 0)); io["virtual"] = I->isBaseVirtual(); }
          else if (I->isDelegatingInitializer()) io["deleg"] = true;
          else if (I->isAnyMemberInitializer()) { io["field"] = id(I->getAnyMember()); io["fn"] = I->getAnyMember()->getNameAsString(); }
          io["written"] = I->isWritten();
          io["init"] = stmt(I->getInit());
          ins.push_back(std::move(io));
        }
        o["inits"] = std::move(ins);
      }
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (repo && F->hasBody() && !F->isDependentContext()) o["body"] = stmt(F->getBody());
    functions.push_back(std::move(o));
  }
  void emitRec(const CXXRecordDecl *R) {
    json::Object o{{"id", id(R)}, {"n", R->getQualifiedNameAsString()}};
    const CXXRecordDecl *D = R->getDefinition();
    if (!D || D->isDependentContext()) return;
    o["t"] = type(C.getRecordType(D));
    o["lam"] = D->isLambda(); o["poly"] = D->isPolymorphic(); o["loc"] = locStr(D->getLocation());
    o["agg"] = D->isAggregate();
    json::Array b;
    for (auto &x : D->bases()) b.push_back(json::Object{{"t", type(x.getType())}, {"virtual", x.isVirtual()}});
    o["bases"] = std::move(b);
    json::Array f;
    for (auto *x : D->fields()) { json::Object fo{{"id", id(x)}, {"n", x->getNameAsString()}, {"t", type(x->getType())}}; if (x->hasInClassInitializer() && x->getInClassInitializer()) fo["init"] = stmt(x->getInClassInitializer()); f.push_back(std::move(fo)); }
    o["fields"] = std::move(f);
    json::Array ms;
    if (!D->isLambda()) for (auto *m : D->methods()) { if (m->isDependentContext()) continue; ms.push_back(id(m)); if (inRepo(m)) enqueueFn(m); }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isDependentContext() && D.inRepo(F)) D.enqueueFn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isDependentContext() && D.inRepo(R)) D.enqueueRec(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (X->hasGlobalStorage() && !X->isStaticLocal() && D.inRepo(X) && !X->getType()->isDependentType() && !X->getDeclContext()->isDependentContext()) D.global(X);
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &c) override {
    if (c.getDiagnostics().hasErrorOccurred()) { exit(3); }
    Dumper D(c);
    V v(D);
    v.TraverseDecl(c.getTranslationUnitDecl());
    while (!D.fnQueue.empty() || !D.recQueue.empty()) {
      while (!D.recQueue.empty()) { auto *r = D.recQueue.front(); D.recQueue.pop_front(); D.emitRec(r); }
      if (!D.fnQueue.empty()) { auto *f = D.fnQueue.front(); D.fnQueue.pop_front(); D.emitFn(f); }
    }
    json::Array ts; for (auto &t : D.types) ts.push_back(std::move(t));
    json::Value top = json::Object{{"types", std::move(ts)}, {"records", std::move(D.records)}, {"functions", std::move(D.functions)}, {"vars", std::move(D.vars)}};
    llvm::outs() << top << "\n";
  }
};
struct A : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  gRoot = argv[2];
  std::vector<std::string> a(argv + 3, argv + argc);
  auto buf = llvm::MemoryBuffer::getFile(argv[1]);
  if (!buf) return 2;
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<A>(), (*buf)->getBuffer(), a, "unity.cpp");
  return ok ? 0 : 3;
}
