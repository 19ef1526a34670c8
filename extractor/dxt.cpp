// dxt: resolved-AST extractor for dreal4.
//
// Usage: dxt OUT.json ROOT[:ROOT...] FILE -- <clang flags>
//
// Parses FILE with clang and writes, for every function *definition* whose
// body is located under one of the ROOTs (template instantiations included),
// the type-resolved statement tree: every call names its resolved callee, every
// reference its declaration.  Classes (fields, bases, methods) and enums are
// written too.  No property is decided here.
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> g_roots;
static std::string g_out;

namespace {

int64_t dxtInt(const llvm::APSInt& v) {
  return static_cast<int64_t>(v.extOrTrunc(64).getZExtValue());
}

std::vector<std::pair<std::string, int>> g_error_lines;

// Remembers where errors were reported: what does not type-check is missing
// from the syntax tree.
class ErrorLines : public DiagnosticConsumer {
 public:
  ErrorLines(DiagnosticConsumer* old, std::unique_ptr<DiagnosticConsumer> keep)
      : old_(old), keep_(std::move(keep)) {}
  void BeginSourceFile(const LangOptions& lo, const Preprocessor* pp) override {
    old_->BeginSourceFile(lo, pp);
  }
  void EndSourceFile() override { old_->EndSourceFile(); }
  void finish() override { old_->finish(); }
  bool IncludeInDiagnosticCounts() const override {
    return old_->IncludeInDiagnosticCounts();
  }
  void HandleDiagnostic(DiagnosticsEngine::Level level,
                        const Diagnostic& d) override {
    DiagnosticConsumer::HandleDiagnostic(level, d);
    if (level >= DiagnosticsEngine::Error && d.hasSourceManager() &&
        d.getLocation().isValid()) {
      const SourceManager& sm = d.getSourceManager();
      const PresumedLoc p =
          sm.getPresumedLoc(sm.getExpansionLoc(d.getLocation()), true);
      if (!p.isInvalid())
        g_error_lines.emplace_back(p.getFilename(),
                                   static_cast<int>(p.getLine()));
    }
    old_->HandleDiagnostic(level, d);
  }

 private:
  DiagnosticConsumer* old_;
  std::unique_ptr<DiagnosticConsumer> keep_;
};

bool hasError(const std::string& file, int first, int last) {
  for (const auto& e : g_error_lines)
    if (e.first == file && first <= e.second && e.second <= last) return true;
  return false;
}

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  explicit Dumper(ASTContext& c)
      : ctx_(c), sm_(c.getSourceManager()), pol_(c.getLangOpts()) {
    pol_.SuppressTagKeyword = true;
    pol_.FullyQualifiedName = true;
    pol_.PrintCanonicalTypes = true;
    pol_.Bool = true;
    pol_.SuppressUnwrittenScope = true;
    pol_.SuppressInlineNamespace = true;
    pol_.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  Array functions, classes, enums, globals;

  bool VisitFunctionDecl(FunctionDecl* fd) {
    if (!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted()) return true;
    if (!fd->isThisDeclarationADefinition()) return true;
    if (fd->isDependentContext()) return true;
    if (!inRoots(fd->getLocation())) return true;
    if (const auto* md = dyn_cast<CXXMethodDecl>(fd))
      if (md->getParent()->isLambda()) return true;
    emitFunction(fd);
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isLambda()) return true;
    if (rd->isDependentContext()) return true;
    if (!inRoots(rd->getLocation())) return true;
    Object o;
    o["q"] = qname(rd);
    o["file"] = fileOf(rd->getLocation());
    o["line"] = lineOf(rd->getLocation());
    Array bases;
    for (const auto& b : rd->bases()) bases.push_back(ty(b.getType()));
    o["bases"] = std::move(bases);
    Array fields;
    for (const FieldDecl* f : rd->fields()) {
      Object fo;
      fo["name"] = f->getNameAsString();
      fo["type"] = ty(f->getType());
      fo["access"] = static_cast<int>(f->getAccess());
      fo["mutable"] = f->isMutable();
      fo["line"] = lineOf(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer())
        fo["init"] = expr(f->getInClassInitializer());
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    Array methods;
    for (const CXXMethodDecl* m : rd->methods()) {
      Object mo;
      mo["fid"] = fid(m);
      mo["name"] = m->getNameAsString();
      mo["virtual"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["const"] = m->isConst();
      mo["static"] = m->isStatic();
      mo["deleted"] = m->isDeleted();
      mo["defaulted"] = m->isDefaulted();
      mo["implicit"] = m->isImplicit();
      mo["access"] = static_cast<int>(m->getAccess());
      mo["ret"] = ty(m->getReturnType());
      Array ov;
      for (const CXXMethodDecl* b : m->overridden_methods()) ov.push_back(fid(b));
      mo["overrides"] = std::move(ov);
      methods.push_back(std::move(mo));
    }
    o["methods"] = std::move(methods);
    classes.push_back(std::move(o));
    return true;
  }

  bool VisitEnumDecl(EnumDecl* ed) {
    if (!ed->isThisDeclarationADefinition()) return true;
    if (!inRoots(ed->getLocation())) return true;
    Object o;
    o["q"] = qname(ed);
    o["file"] = fileOf(ed->getLocation());
    Array cs;
    for (const EnumConstantDecl* c : ed->enumerators()) {
      Object co;
      co["name"] = c->getNameAsString();
      co["val"] = dxtInt(c->getInitVal());
      cs.push_back(std::move(co));
    }
    o["consts"] = std::move(cs);
    enums.push_back(std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl* vd) {
    if (!vd->hasGlobalStorage()) return true;
    if (vd->getDeclContext()->isDependentContext()) return true;
    if (!inRoots(vd->getLocation())) return true;
    Object o;
    o["q"] = qname(vd);
    o["id"] = declId(vd);
    o["type"] = ty(vd->getType());
    o["file"] = fileOf(vd->getLocation());
    o["line"] = lineOf(vd->getLocation());
    o["tls"] = vd->getTLSKind() != VarDecl::TLS_None;
    o["staticlocal"] = vd->isStaticLocal();
    o["staticmember"] = vd->isStaticDataMember();
    o["constexpr"] = vd->isConstexpr();
    if (const auto* f = dyn_cast<FunctionDecl>(vd->getDeclContext()))
      o["in"] = fid(f);
    if (vd->hasInit() && !vd->getInit()->isValueDependent())
      o["init"] = expr(vd->getInit());
    globals.push_back(std::move(o));
    return true;
  }

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pol_;
  std::map<const Decl*, int> ids_;
  int next_id_ = 1;

  std::string fileOf(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l, /*UseLineDirectives=*/true);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    return f;
  }
  std::string realFile(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    return sm_.getFilename(l).str();
  }
  int lineOf(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l, true);
    return p.isInvalid() ? 0 : static_cast<int>(p.getLine());
  }
  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = realFile(l);
    for (const auto& r : g_roots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  std::string ty(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(pol_);
  }
  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pol_);
    // template args of class template specialisations
    if (const auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
      printTemplateArgumentList(os, cs->getTemplateArgs().asArray(), pol_);
    }
    os.flush();
    return s;
  }
  std::string fid(const FunctionDecl* f) {
    // Qualified name of the class with its template args + name + params.
    f = f->getCanonicalDecl();
    std::string s;
    if (const auto* md = dyn_cast<CXXMethodDecl>(f)) {
      s = ty(ctx_.getRecordType(md->getParent())) + "::" + f->getNameAsString();
      if (isa<CXXConstructorDecl>(f))
        s = ty(ctx_.getRecordType(md->getParent())) + "::(ctor)";
      else if (isa<CXXDestructorDecl>(f))
        s = ty(ctx_.getRecordType(md->getParent())) + "::(dtor)";
    } else {
      s = qname(f);
    }
    if (const auto* args = f->getTemplateSpecializationArgs()) {
      llvm::raw_string_ostream os(s);
      printTemplateArgumentList(os, args->asArray(), pol_);
      os.flush();
    }
    s += "(";
    bool first = true;
    for (const ParmVarDecl* p : f->parameters()) {
      if (!first) s += ", ";
      first = false;
      s += ty(p->getType());
    }
    s += ")";
    if (const auto* md = dyn_cast<CXXMethodDecl>(f)) {
      if (md->isConst()) s += " const";
      if (md->getRefQualifier() == RQ_LValue) s += " &";
      if (md->getRefQualifier() == RQ_RValue) s += " &&";
    }
    return s;
  }
  int declId(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    return ids_[d] = next_id_++;
  }

  Object fnRef(const FunctionDecl* f) {
    Object o;
    o["fid"] = fid(f);
    o["n"] = f->getNameAsString();
    std::string q = qname(f);
    o["q"] = q;
    o["ret"] = ty(f->getReturnType());
    if (f->isNoReturn()) o["noreturn"] = true;
    if (const auto* md = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = ty(ctx_.getRecordType(md->getParent()));
      if (md->isVirtual()) o["virtual"] = true;
      if (md->isConst()) o["const"] = true;
      if (md->isStatic()) o["static"] = true;
      if (md->isDefaulted() || md->isImplicit()) o["defaulted"] = true;
    }
    if (f->isOverloadedOperator())
      o["op"] = getOperatorSpelling(f->getOverloadedOperator());
    if (isa<CXXConversionDecl>(f)) o["conv"] = true;
    Array pts;
    for (const ParmVarDecl* p : f->parameters()) pts.push_back(ty(p->getType()));
    o["pt"] = std::move(pts);
    return o;
  }

  void emitFunction(const FunctionDecl* fd) {
    Object o;
    o["fid"] = fid(fd);
    o["q"] = qname(fd);
    o["n"] = fd->getNameAsString();
    o["file"] = fileOf(fd->getLocation());
    o["line"] = lineOf(fd->getLocation());
    if (hasError(fileOf(fd->getLocation()), lineOf(fd->getBeginLoc()), lineOf(fd->getEndLoc()))) o["err"] = true;
    o["endline"] = lineOf(fd->getSourceRange().getEnd());
    o["ret"] = ty(fd->getReturnType());
    o["anon"] = fd->isInAnonymousNamespace();
    o["storage_static"] = fd->getStorageClass() == SC_Static;
    Array ps;
    for (const ParmVarDecl* p : fd->parameters()) {
      Object po;
      po["id"] = declId(p);
      po["name"] = p->getNameAsString();
      po["type"] = ty(p->getType());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["kind"] = "function";
    if (const auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = ty(ctx_.getRecordType(md->getParent()));
      o["kind"] = "method";
      o["const"] = md->isConst();
      o["static"] = md->isStatic();
      o["virtual"] = md->isVirtual();
      o["defaulted"] = md->isDefaulted();
      o["implicit"] = md->isImplicit();
      o["access"] = static_cast<int>(md->getAccess());
      Array ov;
      for (const CXXMethodDecl* b : md->overridden_methods())
        ov.push_back(fid(b));
      o["overrides"] = std::move(ov);
      if (const auto* cd = dyn_cast<CXXConstructorDecl>(fd)) {
        o["kind"] = "ctor";
        o["copy"] = cd->isCopyConstructor();
        o["move"] = cd->isMoveConstructor();
        o["explicit"] = cd->isExplicit();
        Array inits;
        for (const CXXCtorInitializer* in : cd->inits()) {
          Object io;
          if (in->isAnyMemberInitializer())
            io["field"] = in->getAnyMember()->getNameAsString();
          else if (in->isBaseInitializer())
            io["base"] = ty(QualType(in->getBaseClass(), 0));
          else if (in->isDelegatingInitializer())
            io["delegate"] = true;
          io["written"] = in->isWritten();
          io["e"] = expr(in->getInit());
          inits.push_back(std::move(io));
        }
        o["inits"] = std::move(inits);
      }
      if (isa<CXXDestructorDecl>(fd)) o["kind"] = "dtor";
      if (isa<CXXConversionDecl>(fd)) o["kind"] = "conv";
    }
    if (fd->isOverloadedOperator())
      o["op"] = getOperatorSpelling(fd->getOverloadedOperator());
    if (const Stmt* b = fd->getBody())
      o["body"] = stmt(b);
    else
      o["body"] = nullptr;
    functions.push_back(std::move(o));
  }

  Value loc(Object o, SourceLocation l) {
    o["l"] = lineOf(l);
    return Value(std::move(o));
  }

  static std::string macroChain(SourceManager& sm, const LangOptions& lo,
                                SourceLocation l) {
    std::string res;
    while (l.isMacroID()) {
      if (!sm.isMacroArgExpansion(l)) {
        res = Lexer::getImmediateMacroName(l, sm, lo).str();
      }
      l = sm.getImmediateMacroCallerLoc(l);
    }
    return res;
  }

  Value stmtOrNull(const Stmt* s) {
    if (!s) return nullptr;
    return stmt(s);
  }

  Value varDecl(const VarDecl* vd) {
    Object o;
    o["id"] = declId(vd);
    o["name"] = vd->getNameAsString();
    o["type"] = ty(vd->getType());
    o["l"] = lineOf(vd->getLocation());
    if (vd->isStaticLocal()) o["static"] = true;
    if (vd->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (vd->hasInit()) o["init"] = expr(vd->getInit());
    return Value(std::move(o));
  }

  Value stmt(const Stmt* s) {
    Object o;
    if (!s) return nullptr;
    if (const auto* e = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      std::string m = macroChain(sm_, ctx_.getLangOpts(), e->getBeginLoc());
      if (!m.empty()) o["mac"] = m;
      o["e"] = expr(e);
      return loc(std::move(o), s->getBeginLoc());
    }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "block";
        Array a;
        for (const Stmt* c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
        o["s"] = std::move(a);
        break;
      }
      case Stmt::DeclStmtClass: {
        o["k"] = "decl";
        Array a;
        for (const Decl* d : cast<DeclStmt>(s)->decls())
          if (const auto* vd = dyn_cast<VarDecl>(d)) a.push_back(varDecl(vd));
        o["d"] = std::move(a);
        break;
      }
      case Stmt::IfStmtClass: {
        const auto* i = cast<IfStmt>(s);
        o["k"] = "if";
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariable())
          o["var"] = varDecl(i->getConditionVariable());
        o["c"] = expr(i->getCond());
        o["t"] = stmtOrNull(i->getThen());
        o["f"] = stmtOrNull(i->getElse());
        break;
      }
      case Stmt::ForStmtClass: {
        const auto* f = cast<ForStmt>(s);
        o["k"] = "for";
        o["init"] = stmtOrNull(f->getInit());
        if (f->getConditionVariable())
          o["var"] = varDecl(f->getConditionVariable());
        if (f->getCond()) o["c"] = expr(f->getCond());
        if (f->getInc()) o["inc"] = expr(f->getInc());
        o["b"] = stmtOrNull(f->getBody());
        break;
      }
      case Stmt::WhileStmtClass: {
        const auto* f = cast<WhileStmt>(s);
        o["k"] = "while";
        if (f->getConditionVariable())
          o["var"] = varDecl(f->getConditionVariable());
        o["c"] = expr(f->getCond());
        o["b"] = stmtOrNull(f->getBody());
        break;
      }
      case Stmt::DoStmtClass: {
        const auto* f = cast<DoStmt>(s);
        o["k"] = "do";
        o["c"] = expr(f->getCond());
        o["b"] = stmtOrNull(f->getBody());
        break;
      }
      case Stmt::CXXForRangeStmtClass: {
        const auto* f = cast<CXXForRangeStmt>(s);
        o["k"] = "range";
        o["var"] = varDecl(f->getLoopVariable());
        o["r"] = expr(f->getRangeInit());
        o["rt"] = ty(f->getRangeInit()->getType());
        o["b"] = stmtOrNull(f->getBody());
        break;
      }
      case Stmt::ReturnStmtClass: {
        o["k"] = "return";
        if (const Expr* e = cast<ReturnStmt>(s)->getRetValue())
          o["e"] = expr(e);
        break;
      }
      case Stmt::SwitchStmtClass: {
        const auto* w = cast<SwitchStmt>(s);
        o["k"] = "switch";
        o["c"] = expr(w->getCond());
        o["ct"] = ty(w->getCond()->IgnoreParenImpCasts()->getType());
        o["b"] = stmtOrNull(w->getBody());
        break;
      }
      case Stmt::CaseStmtClass: {
        o["k"] = "case";
        o["v"] = expr(cast<CaseStmt>(s)->getLHS());
        o["s"] = stmtOrNull(cast<CaseStmt>(s)->getSubStmt());
        break;
      }
      case Stmt::DefaultStmtClass: {
        o["k"] = "default";
        o["s"] = stmtOrNull(cast<DefaultStmt>(s)->getSubStmt());
        break;
      }
      case Stmt::BreakStmtClass: o["k"] = "break"; break;
      case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
      case Stmt::NullStmtClass: o["k"] = "null"; break;
      case Stmt::CXXTryStmtClass: {
        const auto* t = cast<CXXTryStmt>(s);
        o["k"] = "try";
        o["b"] = stmt(t->getTryBlock());
        Array hs;
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
          Object h;
          const CXXCatchStmt* c = t->getHandler(i);
          h["type"] = c->getExceptionDecl() ? ty(c->getCaughtType()) : "...";
          if (c->getExceptionDecl()) h["var"] = varDecl(c->getExceptionDecl());
          h["b"] = stmt(c->getHandlerBlock());
          hs.push_back(std::move(h));
        }
        o["h"] = std::move(hs);
        break;
      }
      case Stmt::AttributedStmtClass:
        return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::LabelStmtClass: {
        o["k"] = "label";
        o["n"] = cast<LabelStmt>(s)->getDecl()->getNameAsString();
        o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt());
        break;
      }
      case Stmt::GotoStmtClass: {
        o["k"] = "goto";
        o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
        break;
      }
      default:
        o["k"] = std::string("?") + s->getStmtClassName();
    }
    return loc(std::move(o), s->getBeginLoc());
  }

  Array exprs(llvm::ArrayRef<const Expr*> es) {
    Array a;
    for (const Expr* e : es) a.push_back(expr(e));
    return a;
  }

  Value expr(const Expr* e) {
    Object o;
    if (!e) return nullptr;
    // Transparent wrappers.
    if (const auto* p = dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
    if (const auto* p = dyn_cast<ExprWithCleanups>(e))
      return expr(p->getSubExpr());
    if (const auto* p = dyn_cast<MaterializeTemporaryExpr>(e))
      return expr(p->getSubExpr());
    if (const auto* p = dyn_cast<CXXBindTemporaryExpr>(e))
      return expr(p->getSubExpr());
    if (const auto* p = dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
    if (const auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
      return expr(p->getReplacement());
    if (const auto* p = dyn_cast<CXXDefaultArgExpr>(e)) {
      Value v = expr(p->getExpr());
      if (auto* ob = v.getAsObject()) (*ob)["dflt"] = true;
      return v;
    }
    if (const auto* p = dyn_cast<CXXDefaultInitExpr>(e))
      return expr(p->getExpr());
    if (const auto* p = dyn_cast<CXXStdInitializerListExpr>(e))
      return expr(p->getSubExpr());
    if (const auto* p = dyn_cast<OpaqueValueExpr>(e))
      return expr(p->getSourceExpr());

    SourceLocation l = e->getExprLoc();

    if (const auto* c = dyn_cast<CastExpr>(e)) {
      switch (c->getCastKind()) {
        case CK_LValueToRValue:
        case CK_NoOp:
        case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase:
        case CK_BuiltinFnToFnPtr:
        case CK_NonAtomicToAtomic:
        case CK_AtomicToNonAtomic:
          if (isa<ImplicitCastExpr>(c) || c->getCastKind() == CK_NoOp ||
              c->getCastKind() == CK_ConstructorConversion ||
              c->getCastKind() == CK_UserDefinedConversion ||
              c->getCastKind() == CK_DerivedToBase ||
              c->getCastKind() == CK_UncheckedDerivedToBase) {
            if (isa<CXXConstCastExpr>(c)) break;
            return expr(c->getSubExpr());
          }
          break;
        default:
          break;
      }
      o["k"] = "cast";
      o["ck"] = c->getCastKindName();
      o["t"] = ty(c->getType());
      o["impl"] = isa<ImplicitCastExpr>(c);
      if (isa<CXXConstCastExpr>(c)) o["constcast"] = true;
      if (isa<CXXReinterpretCastExpr>(c)) o["reint"] = true;
      o["e"] = expr(c->getSubExpr());
      return loc(std::move(o), l);
    }

    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: {
        o["k"] = "int";
        const auto& v = cast<IntegerLiteral>(e)->getValue();
        if (v.getSignificantBits() <= 64)
          o["v"] = static_cast<int64_t>(v.getLimitedValue());
        else
          o["v"] = 0;
        break;
      }
      case Stmt::FloatingLiteralClass:
        o["k"] = "float";
        {
          double d = cast<FloatingLiteral>(e)->getValueAsApproximateDouble();
          llvm::SmallString<32> s;
          cast<FloatingLiteral>(e)->getValue().toString(s);
          o["v"] = d;
          o["s"] = std::string(s.str());
        }
        break;
      case Stmt::CXXBoolLiteralExprClass:
        o["k"] = "bool";
        o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue();
        break;
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass:
        o["k"] = "nullptr";
        break;
      case Stmt::CharacterLiteralClass:
        o["k"] = "char";
        o["v"] = static_cast<int64_t>(cast<CharacterLiteral>(e)->getValue());
        break;
      case Stmt::StringLiteralClass: {
        o["k"] = "str";
        const auto* sl = cast<StringLiteral>(e);
        std::string s;
        if (sl->getCharByteWidth() == 1) s = sl->getString().str();
        if (!json::isUTF8(s)) s = json::fixUTF8(s);
        o["v"] = s;
        break;
      }
      case Stmt::CXXThisExprClass:
        o["k"] = "this";
        break;
      case Stmt::DeclRefExprClass: {
        const auto* d = cast<DeclRefExpr>(e)->getDecl();
        if (const auto* f = dyn_cast<FunctionDecl>(d)) {
          o["k"] = "fn";
          o["fn"] = fnRef(f);
        } else if (const auto* c = dyn_cast<EnumConstantDecl>(d)) {
          o["k"] = "enum";
          o["n"] = c->getNameAsString();
          o["v"] = dxtInt(c->getInitVal());
          o["t"] = ty(c->getType());
          o["q"] = qname(c);
        } else {
          o["k"] = "ref";
          o["id"] = declId(d);
          o["n"] = d->getNameAsString();
          o["t"] = ty(d->getType());
          if (const auto* vd = dyn_cast<VarDecl>(d)) {
            if (isa<ParmVarDecl>(vd)) o["dk"] = "parm";
            else if (vd->hasGlobalStorage()) {
              o["dk"] = "global";
              o["q"] = qname(vd);
              if (vd->isStaticLocal()) o["static"] = true;
              // Constant-evaluable globals (constexpr, const arithmetic).
              const VarDecl* def = nullptr;
              const Expr* init = vd->getAnyInitializer(def);
              if (init && (vd->isConstexpr() || vd->getType().isConstQualified()) &&
                  !init->isValueDependent()) {
                Expr::EvalResult r;
                if (vd->getType()->isArithmeticType() &&
                    init->EvaluateAsRValue(r, ctx_)) {
                  if (r.Val.isInt())
                    o["cv"] = dxtInt(r.Val.getInt());
                  else if (r.Val.isFloat())
                    o["cv"] = r.Val.getFloat().convertToDouble();
                }
              }
            } else o["dk"] = "local";
          }
        }
        break;
      }
      case Stmt::MemberExprClass: {
        const auto* m = cast<MemberExpr>(e);
        if (const auto* f = dyn_cast<FunctionDecl>(m->getMemberDecl())) {
          o["k"] = "memfn";
          o["fn"] = fnRef(f);
          o["b"] = expr(m->getBase());
          o["arrow"] = m->isArrow();
        } else if (const auto* vd = dyn_cast<VarDecl>(m->getMemberDecl())) {
          o["k"] = "ref";
          o["dk"] = "global";
          o["id"] = declId(vd);
          o["n"] = vd->getNameAsString();
          o["q"] = qname(vd);
          o["t"] = ty(vd->getType());
        } else if (const auto* c = dyn_cast<EnumConstantDecl>(m->getMemberDecl())) {
          o["k"] = "enum";
          o["n"] = c->getNameAsString();
          o["v"] = dxtInt(c->getInitVal());
          o["t"] = ty(c->getType());
          o["q"] = qname(c);
        } else {
          o["k"] = "mem";
          o["n"] = m->getMemberDecl()->getNameAsString();
          if (const auto* fd = dyn_cast<FieldDecl>(m->getMemberDecl()))
            o["cls"] = ty(ctx_.getRecordType(fd->getParent()));
          o["t"] = ty(m->getType());
          o["b"] = expr(m->getBase());
          o["arrow"] = m->isArrow();
        }
        break;
      }
      case Stmt::CXXMemberCallExprClass: {
        const auto* c = cast<CXXMemberCallExpr>(e);
        o["k"] = "mcall";
        if (c->getMethodDecl()) {
          o["fn"] = fnRef(c->getMethodDecl());
          o["o"] = expr(c->getImplicitObjectArgument());
          if (const auto* me =
                  dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
            o["arrow"] = me->isArrow();
            if (me->hasQualifier()) o["qualified"] = true;
          }
          o["ot"] = ty(c->getImplicitObjectArgument()->getType());
        } else {
          o["callee"] = expr(c->getCallee());
        }
        o["a"] = exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
        o["t"] = ty(c->getType());
        break;
      }
      case Stmt::CXXOperatorCallExprClass: {
        const auto* c = cast<CXXOperatorCallExpr>(e);
        o["k"] = "opcall";
        o["op"] = getOperatorSpelling(c->getOperator());
        if (const FunctionDecl* f = c->getDirectCallee()) {
          o["fn"] = fnRef(f);
          if (isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) o["member"] = true;
        }
        o["a"] = exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
        Array at;
        for (const Expr* a : c->arguments()) at.push_back(ty(a->getType()));
        o["at"] = std::move(at);
        o["t"] = ty(c->getType());
        break;
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        const auto* c = cast<CallExpr>(e);
        o["k"] = "call";
        if (const FunctionDecl* f = c->getDirectCallee())
          o["fn"] = fnRef(f);
        else
          o["callee"] = expr(c->getCallee());
        o["a"] = exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
        Array at;
        for (const Expr* a : c->arguments()) at.push_back(ty(a->getType()));
        o["at"] = std::move(at);
        o["t"] = ty(c->getType());
        break;
      }
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        const auto* c = cast<CXXConstructExpr>(e);
        const CXXConstructorDecl* cd = c->getConstructor();
        o["k"] = "ctor";
        o["cls"] = ty(ctx_.getRecordType(cd->getParent()));
        o["fn"] = fnRef(cd);
        if (cd->isCopyConstructor()) o["copy"] = true;
        if (cd->isMoveConstructor()) o["move"] = true;
        if (c->isElidable()) o["elide"] = true;
        if (c->isStdInitListInitialization()) o["il"] = true;
        o["a"] = exprs(llvm::ArrayRef<const Expr*>(c->getArgs(), c->getNumArgs()));
        break;
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        o["k"] = "ctor";
        const auto* c = cast<CXXInheritedCtorInitExpr>(e);
        o["cls"] = ty(ctx_.getRecordType(c->getConstructor()->getParent()));
        o["fn"] = fnRef(c->getConstructor());
        o["inherited"] = true;
        o["a"] = Array();
        break;
      }
      case Stmt::CXXNewExprClass: {
        const auto* n = cast<CXXNewExpr>(e);
        o["k"] = "new";
        o["t"] = ty(n->getAllocatedType());
        if (n->getInitializer()) o["e"] = expr(n->getInitializer());
        if (n->getConstructExpr()) o["e"] = expr(n->getConstructExpr());
        Array pl;
        for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i)
          pl.push_back(expr(n->getPlacementArg(i)));
        o["placement"] = std::move(pl);
        if (n->isArray()) o["array"] = true;
        break;
      }
      case Stmt::CXXDeleteExprClass:
        o["k"] = "delete";
        o["e"] = expr(cast<CXXDeleteExpr>(e)->getArgument());
        break;
      case Stmt::UnaryOperatorClass: {
        const auto* u = cast<UnaryOperator>(e);
        o["k"] = "un";
        o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
        o["post"] = u->isPostfix();
        o["e"] = expr(u->getSubExpr());
        o["t"] = ty(u->getType());
        break;
      }
      case Stmt::BinaryOperatorClass:
      case Stmt::CompoundAssignOperatorClass: {
        const auto* b = cast<BinaryOperator>(e);
        o["k"] = b->isAssignmentOp() ? "asg" : "bin";
        o["op"] = b->getOpcodeStr().str();
        o["x"] = expr(b->getLHS());
        o["y"] = expr(b->getRHS());
        o["t"] = ty(b->getType());
        break;
      }
      case Stmt::CXXRewrittenBinaryOperatorClass:
        return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
      case Stmt::ConditionalOperatorClass: {
        const auto* c = cast<ConditionalOperator>(e);
        o["k"] = "cond";
        o["c"] = expr(c->getCond());
        o["x"] = expr(c->getTrueExpr());
        o["y"] = expr(c->getFalseExpr());
        break;
      }
      case Stmt::ArraySubscriptExprClass: {
        const auto* a = cast<ArraySubscriptExpr>(e);
        o["k"] = "idx";
        o["x"] = expr(a->getBase());
        o["y"] = expr(a->getIdx());
        break;
      }
      case Stmt::InitListExprClass: {
        const auto* il = cast<InitListExpr>(e);
        const InitListExpr* sem =
            il->isSemanticForm() ? il : (il->getSemanticForm() ? il->getSemanticForm() : il);
        if (sem->getNumInits() == 1 && sem->isTransparent())
          return expr(sem->getInit(0));
        o["k"] = "list";
        o["t"] = ty(sem->getType());
        Array a;
        for (const Expr* i : sem->inits()) a.push_back(expr(i));
        o["a"] = std::move(a);
        break;
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass:
        o["k"] = "zero";
        o["t"] = ty(e->getType());
        break;
      case Stmt::LambdaExprClass: {
        const auto* le = cast<LambdaExpr>(e);
        o["k"] = "lambda";
        const CXXMethodDecl* op = le->getCallOperator();
        const Stmt* body = le->getBody();
        if (le->isGenericLambda()) {
          if (const FunctionTemplateDecl* ft =
                  le->getLambdaClass()->getDependentLambdaCallOperator()) {
            for (const FunctionDecl* sp : ft->specializations()) {
              if (sp->hasBody()) {
                op = cast<CXXMethodDecl>(sp);
                body = sp->getBody();
                break;
              }
            }
          }
        }
        Array ps;
        for (const ParmVarDecl* p : op->parameters()) {
          Object po;
          po["id"] = declId(p);
          po["name"] = p->getNameAsString();
          po["type"] = ty(p->getType());
          ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        o["ret"] = ty(op->getReturnType());
        if (body && !op->isDependentContext()) o["b"] = stmt(body);
        else o["dependent"] = true;
        Array caps;
        auto it = le->capture_init_begin();
        for (const LambdaCapture& c : le->captures()) {
          Object co;
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (c.capturesVariable()) {
            co["id"] = declId(c.getCapturedVar());
            co["name"] = c.getCapturedVar()->getNameAsString();
            if (const auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
              if (vd->isInitCapture()) co["init"] = expr(vd->getInit());
          } else if (c.capturesThis()) {
            co["this"] = true;
          }
          caps.push_back(std::move(co));
          ++it;
        }
        o["caps"] = std::move(caps);
        break;
      }
      case Stmt::CXXThrowExprClass: {
        o["k"] = "throw";
        const auto* t = cast<CXXThrowExpr>(e);
        std::string m = macroChain(sm_, ctx_.getLangOpts(), t->getThrowLoc());
        if (!m.empty()) o["mac"] = m;
        if (t->getSubExpr()) {
          o["e"] = expr(t->getSubExpr());
          o["t"] = ty(t->getSubExpr()->getType());
        }
        break;
      }
      case Stmt::UnaryExprOrTypeTraitExprClass: {
        o["k"] = "int";
        Expr::EvalResult r;
        if (!e->isValueDependent() && e->EvaluateAsInt(r, ctx_))
          o["v"] = dxtInt(r.Val.getInt());
        else
          o["v"] = 0;
        o["sizeof"] = true;
        break;
      }
      case Stmt::CXXNoexceptExprClass:
      case Stmt::TypeTraitExprClass: {
        Expr::EvalResult r;
        o["k"] = "bool";
        o["v"] = !e->isValueDependent() && e->EvaluateAsRValue(r, ctx_) &&
                 r.Val.isInt() && r.Val.getInt().getBoolValue();
        break;
      }
      case Stmt::CXXTypeidExprClass: o["k"] = "typeid"; break;
      case Stmt::PredefinedExprClass: o["k"] = "str"; o["v"] = "__func__"; break;
      case Stmt::StmtExprClass: {
        o["k"] = "stmtexpr";
        o["b"] = stmt(cast<StmtExpr>(e)->getSubStmt());
        break;
      }
      case Stmt::CXXPseudoDestructorExprClass: o["k"] = "pseudodtor"; break;
      default:
        o["k"] = std::string("?") + e->getStmtClassName();
        {
          Array a;
          for (const Stmt* c : e->children())
            if (const auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
          o["a"] = std::move(a);
        }
    }
    return loc(std::move(o), l);
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    Dumper d(ctx);
    d.TraverseDecl(ctx.getTranslationUnitDecl());
    Object root;
    root["errors"] = static_cast<int64_t>(ctx.getDiagnostics().getNumErrors());
    root["functions"] = std::move(d.functions);
    root["classes"] = std::move(d.classes);
    root["enums"] = std::move(d.enums);
    root["globals"] = std::move(d.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << Value(std::move(root));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci,
                                                 llvm::StringRef) override {
    auto& de = ci.getDiagnostics();
    DiagnosticConsumer* old = de.getClient();
    const bool owns = de.ownsClient();
    std::unique_ptr<DiagnosticConsumer> keep = owns ? de.takeClient() : nullptr;
    de.setClient(new ErrorLines(old, std::move(keep)), true);
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: dxt OUT ROOTS FILE -- flags\n";
    return 2;
  }
  g_out = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p != std::string::npos) {
    size_t q = roots.find(':', p);
    g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
    p = q == std::string::npos ? q : q + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
