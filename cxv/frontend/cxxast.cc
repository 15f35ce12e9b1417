// Clang plugin: emits the typed AST of the functions, records, enums and globals
// defined under the given source roots as compact JSON. Nothing is interpreted
// here: every statement and expression node of the C++ AST is written out;
// only wrapper nodes without semantics (parentheses, cleanups, temporaries
// markers) are collapsed onto their child.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;

namespace {
struct Ctx {
  ASTContext &A; PrintingPolicy P; std::vector<std::string> roots;
  std::map<const Decl*, int> ids; std::set<const Decl*> doneFn, doneRec, doneEnum, doneVar;
  J::Array functions, globals; J::Object records, enums;
  std::set<const CXXRecordDecl*> wantRec;
  Ctx(ASTContext &a) : A(a), P(a.getPrintingPolicy()) {
    P.SuppressTagKeyword = true; P.Bool = true; P.FullyQualifiedName = true; P.PrintCanonicalTypes = true;
    P.SuppressUnwrittenScope = true; P.SuppressDefaultTemplateArgs = true; P.AnonymousTagLocations = false;
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d); if(it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[d] = n; return n;
  }
  std::string ty(QualType t) { if(t.isNull()) return "?"; return t.getCanonicalType().getAsString(P); }
  std::string qual(const NamedDecl *d) {
    std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, P); return os.str();
  }
  int line(SourceLocation l) { return A.getSourceManager().getExpansionLineNumber(l); }
  std::string file(SourceLocation l) { return A.getSourceManager().getFilename(A.getSourceManager().getExpansionLoc(l)).str(); }
  bool inRoots(SourceLocation l) {
    std::string f = file(l);
    for(auto &r : roots) if(f.rfind(r, 0) == 0) return true;
    return false;
  }
  std::string str(llvm::StringRef s) { // bytes as latin-1 -> valid utf8
    std::string o; for(unsigned char c : s) { if(c < 128) o += (char)c; else { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); } } return o;
  }
  J::Value var(const VarDecl *v) {
    J::Object o; o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType());
    if(v->isStaticLocal()) o["static"] = true;
    if(v->hasInit()) o["init"] = expr(v->getInit());
    return o;
  }
  J::Array exprs(llvm::ArrayRef<const Expr*> v) { J::Array a; for(auto *e : v) a.push_back(expr(e)); return a; }
  template<class R> J::Array exprsR(R r) { J::Array a; for(const Expr *e : r) a.push_back(expr(e)); return a; }
  void fn(J::Object &o, const FunctionDecl *f) {
    o["f"] = id(f); o["fn"] = qual(f); noteFn(f);
    J::Array pt; for(auto *p : f->parameters()) pt.push_back(ty(p->getType())); o["pt"] = std::move(pt);
    if(auto *m = dyn_cast<CXXMethodDecl>(f)) { if(m->isVirtual()) o["virt"] = true; if(m->isConst()) o["cm"] = true; o["mcls"] = ty(A.getRecordType(m->getParent())); }
  }
  void noteFn(const FunctionDecl*) {}
  void noteType(QualType t) {
    if(t.isNull()) return;
    t = t.getCanonicalType();
    if(t->isPointerType() || t->isReferenceType()) return noteType(t->getPointeeType());
    if(auto *r = t->getAsCXXRecordDecl()) record(r);
    if(auto *e = t->getAs<EnumType>()) enumd(e->getDecl());
  }
  J::Value expr(const Expr *e0) {
    if(!e0) return nullptr;
    const Expr *e = e0;
    while(true) {
      if(auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if(auto *x = dyn_cast<FullExpr>(e)) { if(isa<ConstantExpr>(x) && !x->isValueDependent()) { Expr::EvalResult r; if(x->getType()->isIntegralOrEnumerationType() && x->EvaluateAsInt(r, A)) { J::Object o; o["k"]="int"; o["t"]=ty(x->getType()); o["v"]=llvm::toString(r.Val.getInt(),10); o["l"]=line(x->getExprLoc()); return o; } } e = x->getSubExpr(); }
      else if(auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if(auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if(auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if(auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if(auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if(auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else break;
    }
    J::Object o;
    o["t"] = ty(e->getType()); o["l"] = line(e->getExprLoc());
    if(e->isGLValue()) o["lv"] = true;
    noteType(e->getType());
    if(e->isPRValue() && e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() &&
       (isa<UnaryExprOrTypeTraitExpr>(e) || isa<ImplicitCastExpr>(e) || isa<DeclRefExpr>(e) || isa<BinaryOperator>(e) || isa<UnaryOperator>(e) || isa<CStyleCastExpr>(e) || isa<CXXStaticCastExpr>(e) || isa<CXXFunctionalCastExpr>(e) || isa<CallExpr>(e))) {
      Expr::EvalResult r;
      if(e->EvaluateAsInt(r, A) && !r.HasSideEffects) {
        o["k"] = "int"; o["v"] = llvm::toString(r.Val.getInt(), 10); return o;
      }
    }
    switch(e->getStmtClass()) {
    case Stmt::IntegerLiteralClass: o["k"]="int"; o["v"]=llvm::toString(cast<IntegerLiteral>(e)->getValue(), 10, e->getType()->isSignedIntegerType()); break;
    case Stmt::CharacterLiteralClass: o["k"]="int"; o["v"]=std::to_string((int)(signed char)cast<CharacterLiteral>(e)->getValue()); break;
    case Stmt::CXXBoolLiteralExprClass: o["k"]="bool"; o["v"]=cast<CXXBoolLiteralExpr>(e)->getValue(); break;
    case Stmt::FloatingLiteralClass: o["k"]="float"; o["v"]=cast<FloatingLiteral>(e)->getValueAsApproximateDouble(); break;
    case Stmt::StringLiteralClass: o["k"]="str"; o["v"]=str(cast<StringLiteral>(e)->getBytes()); break;
    case Stmt::PredefinedExprClass: o["k"]="str"; o["v"]="__func__"; break;
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"]="null"; break;
    case Stmt::CXXThisExprClass: o["k"]="this"; break;
    case Stmt::DeclRefExprClass: {
      auto *d = cast<DeclRefExpr>(e)->getDecl();
      o["k"]="ref"; o["id"]=id(d); o["n"]=d->getNameAsString(); o["q"]=qual(d);
      if(auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"]="int"; o["v"]=llvm::toString(ec->getInitVal(),10); o["en"]=qual(d); if(auto *ed = dyn_cast<EnumDecl>(ec->getDeclContext())) enumd(ed); }
      else if(auto *f = dyn_cast<FunctionDecl>(d)) { o["k"]="fref"; fn(o, f); }
      else if(auto *v = dyn_cast<VarDecl>(d)) { if(v->hasGlobalStorage()) { o["g"]=true; global(v); } if(isa<ParmVarDecl>(v)) o["parm"]=true; }
      else if(isa<BindingDecl>(d)) o["k"]="binding";
      break; }
    case Stmt::MemberExprClass: {
      auto *m = cast<MemberExpr>(e); auto *d = m->getMemberDecl();
      o["k"]="mem"; o["n"]=d->getNameAsString(); o["arrow"]=m->isArrow(); o["b"]=expr(m->getBase());
      if(auto *v = dyn_cast<VarDecl>(d)) { o["k"]="ref"; o["id"]=id(v); o["g"]=true; o["q"]=qual(v); global(v); }
      else if(auto *f = dyn_cast<CXXMethodDecl>(d)) { o["k"]="memfn"; fn(o, f); }
      else o["id"]=id(d);
      break; }
    case Stmt::CXXMemberCallExprClass: {
      auto *c = cast<CXXMemberCallExpr>(e);
      o["k"]="mcall"; if(auto *m = c->getMethodDecl()) { fn(o, m); o["n"]=m->getNameAsString(); }
      auto *callee = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
      if(callee) { o["obj"]=expr(callee->getBase()); o["arrow"]=callee->isArrow(); o["qualified"]=callee->hasQualifier(); }
      else { o["k"]="pmcall"; o["callee"]=expr(c->getCallee()); }
      o["args"]=exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
      break; }
    case Stmt::CXXOperatorCallExprClass: {
      auto *c = cast<CXXOperatorCallExpr>(e);
      o["k"]="opcall"; o["op"]=getOperatorSpelling(c->getOperator());
      if(auto *f = c->getDirectCallee()) { fn(o, f); o["m"] = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic(); }
      o["args"]=exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
      break; }
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto *c = cast<CallExpr>(e);
      o["k"]="call"; if(auto *f = c->getDirectCallee()) { fn(o, f); o["n"]=f->getNameAsString();
        if(auto *ta = f->getTemplateSpecializationArgs()) { J::Array a; for(auto &x : ta->asArray()) if(x.getKind()==TemplateArgument::Type) a.push_back(ty(x.getAsType())); o["ta"]=std::move(a); } }
      else o["callee"]=expr(c->getCallee());
      o["args"]=exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
      break; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *c = cast<CXXConstructExpr>(e);
      o["k"]="ctor"; fn(o, c->getConstructor());
      if(c->getConstructor()->isCopyConstructor()) o["copy"]=true;
      if(c->getConstructor()->isMoveConstructor()) o["move"]=true;
      if(c->getConstructor()->isDefaultConstructor()) o["dflt"]=true;
      if(!c->getConstructor()->isUserProvided()) o["implicit"]=true;
      if(c->isStdInitListInitialization()) o["stdil"]=true;
      o["args"]=exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
      break; }
    case Stmt::CXXInheritedCtorInitExprClass: o["k"]="unsupported"; o["c"]="CXXInheritedCtorInitExpr"; break;
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *c = cast<CastExpr>(e);
      auto ck = c->getCastKind();
      if(ck == CK_NoOp || ck == CK_UserDefinedConversion || ck == CK_ConstructorConversion) { auto v = expr(c->getSubExpr()); return v; }
      o["k"]="cast"; o["ck"]=c->getCastKindName(); o["e"]=expr(c->getSubExpr());
      break; }
    case Stmt::UnaryOperatorClass: { auto *u = cast<UnaryOperator>(e); o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(u->getOpcode()); o["post"]=u->isPostfix(); o["e"]=expr(u->getSubExpr()); break; }
    case Stmt::BinaryOperatorClass: { auto *b = cast<BinaryOperator>(e); o["k"]="bin"; o["op"]=b->getOpcodeStr(); o["a"]=expr(b->getLHS()); o["b"]=expr(b->getRHS()); break; }
    case Stmt::CompoundAssignOperatorClass: { auto *b = cast<CompoundAssignOperator>(e); o["k"]="casg"; o["op"]=b->getOpcodeStr(); o["a"]=expr(b->getLHS()); o["b"]=expr(b->getRHS()); o["ct"]=ty(b->getComputationLHSType()); o["crt"]=ty(b->getComputationResultType()); break; }
    case Stmt::ConditionalOperatorClass: { auto *c = cast<ConditionalOperator>(e); o["k"]="cond"; o["c"]=expr(c->getCond()); o["a"]=expr(c->getTrueExpr()); o["b"]=expr(c->getFalseExpr()); break; }
    case Stmt::ArraySubscriptExprClass: { auto *a = cast<ArraySubscriptExpr>(e); o["k"]="idx"; o["a"]=expr(a->getBase()); o["b"]=expr(a->getIdx()); break; }
    case Stmt::UnaryExprOrTypeTraitExprClass: o["k"]="unsupported"; o["c"]="sizeof"; break;
    case Stmt::InitListExprClass: { auto *i = cast<InitListExpr>(e); if(auto *s = i->getSemanticForm()) i = s; o["k"]="ilist"; o["args"]=exprsR(i->inits());
      if(i->hasArrayFiller()) o["filler"]=true; break; }
    case Stmt::CXXStdInitializerListExprClass: { o["k"]="stdilist"; o["e"]=expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); break; }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"]="zero"; break;
    case Stmt::CXXNewExprClass: { auto *n = cast<CXXNewExpr>(e); o["k"]="new"; o["at"]=ty(n->getAllocatedType()); noteType(n->getAllocatedType()); if(n->isArray()) o["size"]=expr(*n->getArraySize()); if(n->hasInitializer()) o["init"]=expr(n->getInitializer()); break; }
    case Stmt::CXXDeleteExprClass: { auto *d = cast<CXXDeleteExpr>(e); o["k"]="delete"; o["e"]=expr(d->getArgument()); break; }
    case Stmt::CXXThrowExprClass: { auto *t = cast<CXXThrowExpr>(e); o["k"]="throw"; if(t->getSubExpr()) { o["tt"]=ty(t->getSubExpr()->getType()); } break; }
    case Stmt::LambdaExprClass: {
      auto *l = cast<LambdaExpr>(e); o["k"]="lambda"; J::Array caps;
      auto it = l->capture_init_begin();
      for(auto &c : l->captures()) { J::Object co; if(c.capturesVariable()) { co["id"]=id(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); co["ref"]=c.getCaptureKind()==LCK_ByRef; } else if(c.capturesThis()) co["this"]=true; if(*it) co["init"]=expr(*it); ++it; caps.push_back(std::move(co)); }
      o["caps"]=std::move(caps); J::Array ps; for(auto *p : l->getCallOperator()->parameters()) ps.push_back(var(p)); o["params"]=std::move(ps); o["ret"]=ty(l->getCallOperator()->getReturnType()); o["body"]=stmt(l->getBody()); break; }
    case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
    default: o["k"]="unsupported"; o["c"]=e->getStmtClassName();
    }
    return o;
  }
  J::Value stmt(const Stmt *s) {
    if(!s) return nullptr;
    if(auto *e = dyn_cast<Expr>(s)) { J::Object o; o["k"]="expr"; o["e"]=expr(e); o["l"]=line(e->getExprLoc()); return o; }
    J::Object o; o["l"]=line(s->getBeginLoc());
    switch(s->getStmtClass()) {
    case Stmt::CompoundStmtClass: { o["k"]="block"; J::Array a; for(auto *c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c)); o["s"]=std::move(a); break; }
    case Stmt::DeclStmtClass: { o["k"]="decl"; J::Array a; for(auto *d : cast<DeclStmt>(s)->decls()) { if(auto *v = dyn_cast<VarDecl>(d)) { noteType(v->getType()); J::Value jv = var(v);
          if(auto *dd = dyn_cast<DecompositionDecl>(v)) { J::Array bs; for(auto *b : dd->bindings()) { J::Object bo; bo["id"]=id(b); bo["n"]=b->getNameAsString(); bs.push_back(std::move(bo)); } jv.getAsObject()->insert({"bindings", std::move(bs)}); }
          a.push_back(std::move(jv)); } } o["v"]=std::move(a); break; }
    case Stmt::IfStmtClass: { auto *i = cast<IfStmt>(s); o["k"]="if"; if(i->getInit()) o["init"]=stmt(i->getInit()); if(i->getConditionVariableDeclStmt()) o["cv"]=stmt(i->getConditionVariableDeclStmt()); o["c"]=expr(i->getCond()); o["a"]=stmt(i->getThen()); o["b"]=stmt(i->getElse()); break; }
    case Stmt::WhileStmtClass: { auto *w = cast<WhileStmt>(s); o["k"]="while"; if(w->getConditionVariableDeclStmt()) o["cv"]=stmt(w->getConditionVariableDeclStmt()); o["c"]=expr(w->getCond()); o["body"]=stmt(w->getBody()); break; }
    case Stmt::DoStmtClass: { auto *w = cast<DoStmt>(s); o["k"]="do"; o["c"]=expr(w->getCond()); o["body"]=stmt(w->getBody()); break; }
    case Stmt::ForStmtClass: { auto *f = cast<ForStmt>(s); o["k"]="for"; o["init"]=stmt(f->getInit()); o["c"]=expr(f->getCond()); o["inc"]=expr(f->getInc()); o["body"]=stmt(f->getBody()); break; }
    case Stmt::CXXForRangeStmtClass: { auto *f = cast<CXXForRangeStmt>(s); o["k"]="rfor"; o["range"]=expr(f->getRangeInit()); J::Value jv = var(f->getLoopVariable());
        if(auto *dd = dyn_cast<DecompositionDecl>(f->getLoopVariable())) { J::Array bs; for(auto *b : dd->bindings()) { J::Object bo; bo["id"]=id(b); bo["n"]=b->getNameAsString(); bs.push_back(std::move(bo)); } jv.getAsObject()->insert({"bindings", std::move(bs)}); }
        o["v"]=std::move(jv); o["body"]=stmt(f->getBody()); break; }
    case Stmt::ReturnStmtClass: { o["k"]="return"; o["e"]=expr(cast<ReturnStmt>(s)->getRetValue()); break; }
    case Stmt::BreakStmtClass: o["k"]="break"; break;
    case Stmt::ContinueStmtClass: o["k"]="continue"; break;
    case Stmt::NullStmtClass: o["k"]="nop"; break;
    case Stmt::GotoStmtClass: o["k"]="goto"; o["n"]=cast<GotoStmt>(s)->getLabel()->getNameAsString(); break;
    case Stmt::LabelStmtClass: o["k"]="label"; o["n"]=cast<LabelStmt>(s)->getDecl()->getNameAsString(); o["s"]=stmt(cast<LabelStmt>(s)->getSubStmt()); break;
    case Stmt::SwitchStmtClass: { auto *w = cast<SwitchStmt>(s); o["k"]="switch"; if(w->getInit()) o["init"]=stmt(w->getInit()); o["c"]=expr(w->getCond()); o["body"]=stmt(w->getBody()); break; }
    case Stmt::CaseStmtClass: { auto *c = cast<CaseStmt>(s); o["k"]="case"; Expr::EvalResult r; if(c->getLHS()->EvaluateAsInt(r, A)) o["v"]=llvm::toString(r.Val.getInt(),10); o["s"]=stmt(c->getSubStmt()); break; }
    case Stmt::DefaultStmtClass: o["k"]="default"; o["s"]=stmt(cast<DefaultStmt>(s)->getSubStmt()); break;
    case Stmt::CXXTryStmtClass: { auto *t = cast<CXXTryStmt>(s); o["k"]="try"; o["body"]=stmt(t->getTryBlock()); J::Array hs; for(unsigned i=0;i<t->getNumHandlers();i++) { auto *h=t->getHandler(i); J::Object ho; ho["t"]= h->getCaughtType().isNull()? "..." : ty(h->getCaughtType()); if(h->getExceptionDecl()) ho["v"]=var(h->getExceptionDecl()); ho["body"]=stmt(h->getHandlerBlock()); hs.push_back(std::move(ho)); } o["h"]=std::move(hs); break; }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
    default: o["k"]="unsupported"; o["c"]=s->getStmtClassName();
    }
    return o;
  }
  void record(const CXXRecordDecl *r) {
    r = r->getDefinition(); if(!r || r->isDependentType()) return;
    if(!inRoots(r->getLocation())) return;
    if(!doneRec.insert(r->getCanonicalDecl()).second) return;
    J::Object o; o["id"]=id(r); o["q"]=qual(r); o["file"]=file(r->getLocation());
    J::Array fs;
    for(auto *f : r->fields()) { noteType(f->getType()); J::Object fo; fo["id"]=id(f); fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); fo["acc"]=(int)f->getAccess(); if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"]=expr(f->getInClassInitializer()); fs.push_back(std::move(fo)); }
    o["fields"]=std::move(fs);
    J::Array bs; for(auto &b : r->bases()) { bs.push_back(ty(b.getType())); noteType(b.getType()); } o["bases"]=std::move(bs);
    o["union"]=r->isUnion(); o["poly"]=r->isPolymorphic();
    if(auto *d = r->getDestructor()) { o["dtor"]=id(d); o["udtor"]=d->isUserProvided(); }
    records[ty(A.getRecordType(r))]=std::move(o);
  }
  void enumd(const EnumDecl *e) {
    e = e->getDefinition(); if(!e) return; if(!doneEnum.insert(e->getCanonicalDecl()).second) return;
    J::Object o; for(auto *c : e->enumerators()) o[c->getNameAsString()]=llvm::toString(c->getInitVal(),10);
    J::Object w; w["under"]=ty(e->getIntegerType()); w["vals"]=std::move(o);
    enums[ty(A.getTypeDeclType(e))]=std::move(w);
  }
  void global(const VarDecl *v) {
    if(!doneVar.insert(v->getCanonicalDecl()).second) return;
    J::Object o; o["id"]=id(v); o["n"]=v->getNameAsString(); o["q"]=qual(v); o["t"]=ty(v->getType()); o["const"]=v->getType().isConstQualified();
    const VarDecl *def=nullptr; if(auto *i = v->getAnyInitializer(def)) { if(def && inRoots(def->getLocation()) && !i->isValueDependent()) o["init"]=expr(i); }
    globals.push_back(std::move(o));
  }
  void function(const FunctionDecl *f) {
    if(!f->doesThisDeclarationHaveABody() && !(f->isDefaulted())) return;
    if(f->isDependentContext() || f->isTemplated()) return;
    if(!inRoots(f->getLocation())) return;
    if(!f->hasBody()) return;
    if(!doneFn.insert(f->getCanonicalDecl()).second) return;
    J::Object o; o["id"]=id(f); o["q"]=qual(f); o["n"]=f->getNameAsString(); o["ret"]=ty(f->getReturnType()); o["file"]=file(f->getLocation()); o["line"]=line(f->getLocation());
    o["endline"]=line(f->getSourceRange().getEnd());
    noteType(f->getReturnType());
    J::Array ps; for(auto *p : f->parameters()) { ps.push_back(var(p)); noteType(p->getType()); } o["params"]=std::move(ps);
    if(f->isImplicit()) o["implicit"]=true;
    if(auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"]=ty(A.getRecordType(m->getParent())); o["static"]=m->isStatic(); o["const"]=m->isConst(); o["virt"]=m->isVirtual(); o["acc"]=(int)m->getAccess(); record(m->getParent());
      J::Array ov; for(auto *b : m->overridden_methods()) ov.push_back(id(b)); o["overrides"]=std::move(ov);
      if(auto *c = dyn_cast<CXXConstructorDecl>(f)) {
        o["kind"]="ctor"; J::Array is; for(auto *i : c->inits()) { J::Object io; if(i->isAnyMemberInitializer()) io["field"]=i->getAnyMember()->getNameAsString(); else if(i->isBaseInitializer()) io["base"]=ty(QualType(i->getBaseClass(),0)); else io["deleg"]=true; io["e"]=expr(i->getInit()); io["written"]=i->isWritten(); is.push_back(std::move(io)); } o["inits"]=std::move(is);
        if(c->isCopyConstructor()) o["copy"]=true; if(c->isMoveConstructor()) o["move"]=true; if(c->isDefaultConstructor()) o["dflt"]=true;
      } else if(isa<CXXDestructorDecl>(f)) o["kind"]="dtor"; else if(isa<CXXConversionDecl>(f)) o["kind"]="conv"; else o["kind"]="method";
    } else o["kind"]="fn";
    o["body"]=stmt(f->getBody());
    functions.push_back(std::move(o));
  }
};
struct V : RecursiveASTVisitor<V> {
  Ctx &c; V(Ctx &c) : c(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) { c.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { if(r->isThisDeclarationADefinition()) c.record(r); return true; }
  bool VisitEnumDecl(EnumDecl *e) { if(c.inRoots(e->getLocation())) c.enumd(e); return true; }
  bool VisitVarDecl(VarDecl *v) { if(v->hasGlobalStorage() && !v->isStaticLocal() && c.inRoots(v->getLocation()) && !v->getDeclContext()->isDependentContext()) c.global(v); return true; }
};
struct Cons : ASTConsumer {
  std::string out; std::vector<std::string> roots;
  void HandleTranslationUnit(ASTContext &A) override {
    if(A.getDiagnostics().hasErrorOccurred()) return;
    Ctx c(A); c.roots = roots; V v(c);
    for(Decl *d : A.getTranslationUnitDecl()->decls()) {
      // namespaces may be re-opened by system headers; walk only what can hold root decls
      if(c.inRoots(d->getLocation()) || isa<LinkageSpecDecl>(d)) v.TraverseDecl(d);
    }
    std::error_code ec; llvm::raw_fd_ostream os(out, ec);
    J::Object o; o["functions"]=std::move(c.functions); o["records"]=std::move(c.records); o["enums"]=std::move(c.enums); o["globals"]=std::move(c.globals);
    os << J::Value(std::move(o));
  }
};
struct Act : PluginASTAction {
  std::string out; std::vector<std::string> roots;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { auto c = std::make_unique<Cons>(); c->out=out; c->roots=roots; return c; }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &a) override { for(auto &s : a) { if(s.rfind("out=",0)==0) out=s.substr(4); else if(s.rfind("root=",0)==0) roots.push_back(s.substr(5)); } return true; }
  ActionType getActionType() override { return ReplaceAction; }
};
}
static FrontendPluginRegistry::Add<Act> X("cxxast", "dump typed AST");
