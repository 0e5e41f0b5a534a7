// gx: a libTooling fact extractor for GANDALF.
// Parses the translation units given on the command line (with the flags after --) and writes one
// JSON line per class ("R"), per namespace-scope variable ("G"), per function definition ("F") found
// in files below the source root.  All names are resolved: fields and callees are identified by the
// declaration they refer to, template instantiations are visited with their arguments substituted.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
using namespace clang;
using namespace clang::tooling;

static std::string Root;
static std::set<std::string> Seen;
static FILE *Out;
static int Errors = 0;

static std::string esc(llvm::StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

class Emitter {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::map<const ValueDecl *, int> Locals;
  std::vector<std::string> LocalDesc;
  const FunctionDecl *Cur = nullptr;
  std::string CurFile;

  Emitter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
    PP.TerseOutput = true; PP.SuppressUnwrittenScope = true;
    MC.reset(C.createMangleContext());
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    llvm::StringRef f = SM.getFilename(L);
    std::string s = f.str();
    // normalise
    llvm::SmallString<256> p(s);
    char buf[4096];
    if (realpath(s.c_str(), buf)) s = buf;
    return s;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L, std::string &rel) {
    if (L.isInvalid()) return false;
    static std::map<unsigned, std::string> cache; // by FileID hash within TU: cleared per TU
    std::string f = file(L);
    if (f.compare(0, Root.size(), Root) != 0) return false;
    rel = f.substr(Root.size());
    return true;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "\"?\"";
    return esc(T.getCanonicalType().getAsString(PP));
  }
  // qualified name without template arguments
  static std::string qn(const NamedDecl *D) {
    std::string r;
    const DeclContext *DC = D->getDeclContext();
    std::vector<std::string> parts;
    std::string self;
    if (auto *cd = dyn_cast<CXXConstructorDecl>(D)) self = cd->getParent()->getNameAsString();
    else if (auto *dd = dyn_cast<CXXDestructorDecl>(D)) self = "~" + dd->getParent()->getNameAsString();
    else self = D->getNameAsString();
    parts.push_back(self);
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
      } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
        parts.push_back(R->getNameAsString());
      } else if (isa<FunctionDecl>(DC)) {
        parts.push_back(cast<FunctionDecl>(DC)->getNameAsString() + "()");
      }
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
    return r;
  }
  std::string mangled(const FunctionDecl *FD) {
    std::string s; llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *c = dyn_cast<CXXConstructorDecl>(FD)) GD = GlobalDecl(c, Ctor_Complete);
    else if (auto *d = dyn_cast<CXXDestructorDecl>(FD)) GD = GlobalDecl(d, Dtor_Complete);
    else GD = GlobalDecl(FD);
    if (MC->shouldMangleDeclName(FD)) MC->mangleName(GD, os); else os << FD->getNameAsString();
    return os.str();
  }
  std::string targs(const TemplateArgumentList *L) {
    std::string r = "[";
    if (L) {
      bool first = true;
      for (auto &A : L->asArray()) {
        if (!first) r += ","; first = false;
        std::string s; llvm::raw_string_ostream os(s);
        A.print(PP, os, true);
        r += esc(os.str());
      }
    }
    return r + "]";
  }
  int local(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = Locals.find(D);
    if (it != Locals.end()) return it->second;
    int id = (int)LocalDesc.size();
    Locals[D] = id;
    std::string k = isa<ParmVarDecl>(D) ? "p" : "l";
    if (auto *V = dyn_cast<VarDecl>(D)) if (V->isStaticLocal()) k = "s";
    LocalDesc.push_back("[" + esc(D->getNameAsString()) + "," + type(D->getType()) + "," + esc(k) + "," + std::to_string(line(D->getLocation())) + "]");
    return id;
  }
  std::string list(const std::vector<std::string> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += v[i]; }
    return r + "]";
  }
  std::string N(const char *k, int l, std::initializer_list<std::string> xs) {
    std::string r = std::string("[\"") + k + "\"," + std::to_string(l);
    for (auto &x : xs) { r += ","; r += x; }
    return r + "]";
  }

  std::string callExpr(const CallExpr *E, int l) {
    std::vector<std::string> args;
    std::string obj = "null", name = "\"?\"", mang = "\"\"", virt = "0";
    unsigned a0 = 0;
    const FunctionDecl *FD = E->getDirectCallee();
    if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) {
        obj = expr(ME->getBase());
        if (auto *MD = dyn_cast<CXXMethodDecl>(ME->getMemberDecl()))
          if (MD->isVirtual() && !ME->hasQualifier()) virt = "1";
      } else obj = expr(M->getImplicitObjectArgument());
    } else if (isa<CXXOperatorCallExpr>(E) && FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
      obj = expr(E->getArg(0)); a0 = 1;
    } else if (FD && isa<CXXMethodDecl>(FD) && cast<CXXMethodDecl>(FD)->isStatic()) {
      // static member
    }
    if (FD) {
      name = esc(qn(FD)); mang = esc(mangled(FD));
    } else obj = expr(E->getCallee());
    for (unsigned i = a0; i < E->getNumArgs(); i++) {
      if (isa<CXXDefaultArgExpr>(E->getArg(i))) continue;
      args.push_back(expr(E->getArg(i)));
    }
    return N("call", l, {name, mang, list(args), obj, virt, type(E->getType())});
  }

  std::string expr(const Expr *E) {
    if (!E) return "null";
    int l = line(E->getExprLoc());
    // strip the transparent wrappers
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C))
        return N("int", l, {llvm::toString(R.Val.getInt(), 10), esc(X->getParameter()->getNameAsString())});
      return expr(X->getReplacement());
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_IntegralToFloating: {
        return N("cast", l, {"\"i2f\"", type(E->getType()), expr(X->getSubExpr())});
      }
      case CK_FloatingToIntegral:
        return N("cast", l, {"\"f2i\"", type(E->getType()), expr(X->getSubExpr())});
      default: return expr(X->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      QualType f = X->getSubExpr()->getType(), t = X->getType();
      const char *k = "x";
      if (f->isIntegerType() && t->isFloatingType()) k = "i2f";
      else if (f->isFloatingType() && t->isIntegerType()) k = "f2i";
      else if (f->isFloatingType() && t->isFloatingType()) k = "f2f";
      if (auto *CC = dyn_cast<CXXFunctionalCastExpr>(X)) if (isa<CXXConstructExpr>(CC->getSubExpr()->IgnoreImplicit())) return expr(CC->getSubExpr());
      const Expr *s = X->getSubExpr();
      // the semantic conversion sits in an implicit cast below some explicit casts
      if (auto *ic = dyn_cast<ImplicitCastExpr>(s)) if (ic->isPartOfExplicitCast()) {
        f = ic->getSubExpr()->getType();
        if (f->isIntegerType() && t->isFloatingType()) k = "i2f";
        else if (f->isFloatingType() && t->isIntegerType()) k = "f2i";
        s = ic->getSubExpr();
      }
      return N("cast", l, {std::string("\"") + k + "\"", type(t), expr(s)});
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) return N("int", l, {llvm::toString(X->getValue(), 10, true)});
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      char b[64]; snprintf(b, 64, "%.17g", X->getValueAsApproximateDouble());
      std::string s = b;
      if (s == "inf" || s == "nan" || s == "-inf") s = "1e999";
      return N("flt", l, {s});
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) return N("str", l, {esc(X->getString())});
    if (auto *X = dyn_cast<CharacterLiteral>(E)) return N("chr", l, {std::to_string(X->getValue())});
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) return N("bool", l, {X->getValue() ? "1" : "0"});
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return N("null", l, {});
    if (isa<CXXThisExpr>(E)) return N("this", l, {});
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm()) return N("var", l, {std::to_string(local(V))});
        return N("gvar", l, {esc(qn(V)), type(V->getType())});
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D))
        return N("enum", l, {esc(qn(EC)), llvm::toString(EC->getInitVal(), 10)});
      if (auto *FD = dyn_cast<FunctionDecl>(D)) return N("fref", l, {esc(qn(FD)), esc(mangled(FD))});
      return N("gvar", l, {esc(qn(D)), type(D->getType())});
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(D)) return N("fref", l, {esc(qn(FD)), esc(mangled(FD))});
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return N("enum", l, {esc(qn(EC)), llvm::toString(EC->getInitVal(), 10)});
      if (auto *V = dyn_cast<VarDecl>(D)) return N("gvar", l, {esc(qn(V)), type(V->getType())});
      // anonymous unions/structs: skip the unnamed member
      if (auto *FLD = dyn_cast<FieldDecl>(D)) if (FLD->isAnonymousStructOrUnion()) return expr(X->getBase());
      return N("mem", l, {expr(X->getBase()), esc(qn(D)), X->isArrow() ? "1" : "0", type(D->getType())});
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) return N("idx", l, {expr(X->getBase()), expr(X->getIdx())});
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      return N("un", l, {esc(UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "p" : "")), expr(X->getSubExpr())});
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      std::string op = X->getOpcodeStr().str();
      if (X->isAssignmentOp()) return N("asg", l, {esc(op), expr(X->getLHS()), expr(X->getRHS())});
      return N("bin", l, {esc(op), expr(X->getLHS()), expr(X->getRHS())});
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) return N("cond", l, {expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())});
    if (auto *X = dyn_cast<CallExpr>(E)) return callExpr(X, l);
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      std::vector<std::string> a;
      // copy elision: constructing from a temporary of the same type
      if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
      for (auto *A : X->arguments()) if (!isa<CXXDefaultArgExpr>(A)) a.push_back(expr(A));
      return N("ctor", l, {esc(qn(X->getConstructor()->getParent())), esc(mangled(X->getConstructor())), list(a), type(X->getType())});
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      std::string sz = "null", init = "null";
      if (X->isArray() && X->getArraySize()) sz = expr(*X->getArraySize());
      if (X->getConstructExpr()) init = expr(X->getConstructExpr()); else if (X->getInitializer()) init = expr(X->getInitializer());
      return N("new", l, {type(X->getAllocatedType()), sz, init, X->isArray() ? "1" : "0"});
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) return N("del", l, {expr(X->getArgument()), X->isArrayForm() ? "1" : "0"});
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      std::vector<std::string> a; for (auto *A : X->inits()) a.push_back(expr(A));
      return N("init", l, {list(a)});
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      return N("sizeof", l, {type(X->isArgumentType() ? X->getArgumentType() : X->getArgumentExpr()->getType())});
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) return N("throw", l, {expr(X->getSubExpr())});
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return N("defarg", l, {});
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<LambdaExpr>(E)) return N("lambda", l, {stmt(X->getBody())});
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return N("zero", l, {});
    // generic
    std::vector<std::string> kids;
    for (const Stmt *S : E->children()) if (auto *e2 = dyn_cast_or_null<Expr>(S)) kids.push_back(expr(e2));
    return N("other", l, {esc(E->getStmtClassName()), list(kids)});
  }

  std::string varDecl(const VarDecl *V) {
    std::string init = V->hasInit() ? expr(V->getInit()) : "null";
    std::string vla = "null";
    if (auto *VT = C.getAsVariableArrayType(V->getType())) vla = expr(VT->getSizeExpr());
    return "[" + std::to_string(local(V)) + "," + init + "," + vla + "]";
  }
  std::string stmt(const Stmt *S) {
    if (!S) return "null";
    int l = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) return N("expr", l, {expr(E)});
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      std::vector<std::string> v; for (auto *s : X->body()) v.push_back(stmt(s));
      return N("block", l, {list(v)});
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      std::vector<std::string> v;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) v.push_back(varDecl(V));
      return N("decl", l, {list(v)});
    }
    if (auto *X = dyn_cast<IfStmt>(S)) return N("if", l, {expr(X->getCond()), stmt(X->getThen()), stmt(X->getElse())});
    if (auto *X = dyn_cast<ForStmt>(S)) return N("for", l, {stmt(X->getInit()), expr(X->getCond()), expr(X->getInc()), stmt(X->getBody())});
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) return N("rfor", l, {varDecl(X->getLoopVariable()), expr(X->getRangeInit()), stmt(X->getBody())});
    if (auto *X = dyn_cast<WhileStmt>(S)) return N("while", l, {expr(X->getCond()), stmt(X->getBody())});
    if (auto *X = dyn_cast<DoStmt>(S)) return N("do", l, {stmt(X->getBody()), expr(X->getCond())});
    if (auto *X = dyn_cast<SwitchStmt>(S)) return N("switch", l, {expr(X->getCond()), stmt(X->getBody())});
    if (auto *X = dyn_cast<CaseStmt>(S)) return N("case", l, {expr(X->getLHS()), stmt(X->getSubStmt())});
    if (auto *X = dyn_cast<DefaultStmt>(S)) return N("default", l, {stmt(X->getSubStmt())});
    if (auto *X = dyn_cast<ReturnStmt>(S)) return N("return", l, {expr(X->getRetValue())});
    if (isa<BreakStmt>(S)) return N("break", l, {});
    if (isa<ContinueStmt>(S)) return N("continue", l, {});
    if (isa<NullStmt>(S)) return N("block", l, {"[]"});
    if (auto *X = dyn_cast<LabelStmt>(S)) return N("label", l, {esc(X->getName()), stmt(X->getSubStmt())});
    if (auto *X = dyn_cast<GotoStmt>(S)) return N("goto", l, {esc(X->getLabel()->getNameAsString())});
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      std::vector<std::string> h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) h.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      return N("try", l, {stmt(X->getTryBlock()), list(h)});
    }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      std::vector<std::string> cl;
      for (auto *c : X->clauses()) {
        if (!c || c->isImplicit()) continue;
        std::vector<std::string> ch; std::string extra = "\"\"";
        if (auto *r = dyn_cast<OMPReductionClause>(c)) extra = esc(r->getNameInfo().getAsString());
        if (auto *d = dyn_cast<OMPDefaultClause>(c)) extra = esc(llvm::omp::getOpenMPClauseName(llvm::omp::OMPC_default).str() + std::to_string((int)d->getDefaultKind()));
        auto vl = [&](auto *vc) { for (auto *e : vc->varlists()) ch.push_back(expr(e)); };
        if (auto *q = dyn_cast<OMPPrivateClause>(c)) vl(q);
        else if (auto *q = dyn_cast<OMPFirstprivateClause>(c)) vl(q);
        else if (auto *q = dyn_cast<OMPLastprivateClause>(c)) vl(q);
        else if (auto *q = dyn_cast<OMPSharedClause>(c)) vl(q);
        else if (auto *q = dyn_cast<OMPReductionClause>(c)) vl(q);
        else if (auto *q = dyn_cast<OMPCopyinClause>(c)) vl(q);
        cl.push_back("[" + esc(llvm::omp::getOpenMPClauseName(c->getClauseKind())) + "," + extra + "," + list(ch) + "]");
      }
      if (auto *k = dyn_cast<OMPCriticalDirective>(X)) cl.push_back("[\"name\"," + esc(k->getDirectiveName().getAsString()) + ",[]]");
      const Stmt *body = nullptr;
      if (X->hasAssociatedStmt()) { body = X->getRawStmt(); }
      return N("omp", l, {esc(llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind())), list(cl), body ? stmt(body) : "null"});
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    std::vector<std::string> kids;
    for (const Stmt *c : S->children()) if (c) kids.push_back(stmt(c));
    return N("sother", l, {esc(S->getStmtClassName()), list(kids)});
  }

  static std::string recName(const CXXRecordDecl *R) { return qn(R); }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    std::string rel;
    if (!inRoot(R->getLocation(), rel)) return;
    std::string full = C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
    if (!Seen.insert("R" + full).second) return;
    std::string s = "R\t" + full + "\t{\"n\":" + esc(qn(R)) + ",\"t\":" + esc(full) + ",\"file\":" + esc(rel) + ",\"line\":" + std::to_string(line(R->getLocation()));
    std::vector<std::string> b, f, m;
    for (auto &B : R->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) b.push_back("[" + esc(qn(BR)) + "," + type(B.getType()) + "]");
    std::function<void(const RecordDecl *)> fields = [&](const RecordDecl *RD) {
      for (auto *F : RD->fields()) {
        if (F->isAnonymousStructOrUnion()) { if (auto *rt = F->getType()->getAsRecordDecl()) fields(rt); continue; }
        f.push_back("[" + esc(F->getNameAsString()) + "," + type(F->getType()) + "," + std::to_string(line(F->getLocation())) + "," + (F->hasInClassInitializer() ? "1" : "0") + "]");
      }
    };
    fields(R);
    for (auto *D : R->decls())
      if (auto *V = dyn_cast<VarDecl>(D)) {
        std::string init = "null";
        if (V->getAnyInitializer()) init = expr(V->getAnyInitializer());
        m.push_back("[" + esc(V->getNameAsString()) + "," + type(V->getType()) + "," + init + "]");
      }
    std::vector<std::string> meth;
    for (auto *M : R->methods())
      meth.push_back("[" + esc(M->getNameAsString()) + "," + esc(mangled(M)) + "," + (M->isVirtual() ? "1" : "0") + "," + (M->isPureVirtual() ? "1" : "0") + "," + (M->isImplicit() ? "1" : "0") + "," + (M->isConst() ? "1" : "0") + "]");
    const TemplateArgumentList *L = nullptr;
    if (auto *S2 = dyn_cast<ClassTemplateSpecializationDecl>(R)) L = &S2->getTemplateArgs();
    s += ",\"bases\":" + list(b) + ",\"fields\":" + list(f) + ",\"statics\":" + list(m) + ",\"methods\":" + list(meth) + ",\"targs\":" + targs(L) + "}";
    fprintf(Out, "%s\n", s.c_str());
  }

  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || V->isStaticDataMember()) return;
    if (!V->isFileVarDecl() || V->getDeclContext()->isDependentContext()) return;
    std::string rel;
    if (!inRoot(V->getLocation(), rel)) return;
    std::string key = qn(V);
    const VarDecl *Def = V;
    if (!V->hasInit() && V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return;
    if (!Seen.insert("G" + key + rel).second) return;
    Locals.clear(); LocalDesc.clear();
    std::string init = Def->getInit() ? expr(Def->getInit()) : "null";
    fprintf(Out, "G\t%s\t{\"n\":%s,\"t\":%s,\"file\":%s,\"line\":%d,\"const\":%d,\"init\":%s}\n", key.c_str(), esc(key).c_str(), type(V->getType()).c_str(), esc(rel).c_str(), line(V->getLocation()), (int)V->getType().isConstQualified(), init.c_str());
  }

  void function(const FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() && !(FD->isDefaulted())) return;
    if (!FD->doesThisDeclarationHaveABody()) return;
    if (FD->isDependentContext() || FD->isImplicit() || FD->isDefaulted() || FD->isDeleted()) return;
    if (FD->getDescribedFunctionTemplate()) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->getParent()->isLambda()) return;
    std::string rel;
    if (!inRoot(FD->getLocation(), rel)) return;
    std::string m = mangled(FD);
    if (FD->getFormalLinkage() == Linkage::Internal) m += "@" + rel;
    if (!Seen.insert("F" + m).second) return;
    Locals.clear(); LocalDesc.clear(); Cur = FD;
    std::vector<std::string> params, over, inits;
    for (auto *P : FD->parameters()) params.push_back(std::to_string(local(P)));
    std::string cls = "\"\"", clst = "\"\"", tn = "[]", kind = "\"fn\"";
    int virt = 0, isstatic = 0;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      cls = esc(qn(M->getParent())); clst = type(C.getTypeDeclType(M->getParent()));
      virt = M->isVirtual(); isstatic = M->isStatic();
      kind = "\"method\"";
      for (auto *o : M->overridden_methods()) over.push_back(esc(mangled(o)));
      if (auto *S2 = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) tn = targs(&S2->getTemplateArgs());
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
        kind = "\"ctor\"";
        for (auto *I : CD->inits()) {
          std::string what = "null";
          if (I->isAnyMemberInitializer()) what = esc(qn(I->getAnyMember()));
          else if (I->isBaseInitializer()) what = esc(std::string("base:") + qn(I->getBaseClass()->getAsCXXRecordDecl()));
          else if (I->isDelegatingInitializer()) what = "\"delegate\"";
          inits.push_back("[" + what + "," + expr(I->getInit()) + "," + (I->isWritten() ? "1" : "0") + "]");
        }
      } else if (isa<CXXDestructorDecl>(FD)) kind = "\"dtor\"";
    }
    std::string ft = "[]";
    if (auto *TA = FD->getTemplateSpecializationArgs()) ft = targs(TA);
    std::string body = stmt(FD->getBody());
    std::string h = "{\"n\":" + esc(qn(FD)) + ",\"m\":" + esc(m) + ",\"kind\":" + kind + ",\"cls\":" + cls + ",\"clst\":" + clst + ",\"ct\":" + tn + ",\"ft\":" + ft +
      ",\"file\":" + esc(rel) + ",\"line\":" + std::to_string(line(FD->getLocation())) + ",\"end\":" + std::to_string(line(FD->getEndLoc())) +
      ",\"virt\":" + std::to_string(virt) + ",\"static\":" + std::to_string(isstatic) + ",\"ret\":" + type(FD->getReturnType()) + ",\"over\":" + list(over) +
      ",\"params\":" + list(params) + "}";
    fprintf(Out, "F\t%s\t%s\t{\"locals\":%s,\"inits\":%s,\"body\":%s}\n", m.c_str(), h.c_str(), list(LocalDesc).c_str(), list(inits).c_str(), body.c_str());
    Cur = nullptr;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Emitter &Em;
  Visitor(Emitter &e) : Em(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *FD) { Em.function(FD); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { Em.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) { Em.global(V); return true; }
  bool TraverseStmt(Stmt *S) { return true; } // bodies are handled by the emitter
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) Errors++;
    Emitter Em(C); Visitor V(Em); V.TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

// usage: gx OUT ROOT file... -- flags...
int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  Out = fopen(argv[1], "w");
  Root = argv[2];
  if (Root.back() != '/') Root += '/';
  std::vector<std::string> files, flags;
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) files.push_back(argv[i]);
  for (i++; i < argc; i++) flags.push_back(argv[i]);
  FixedCompilationDatabase DB(".", flags);
  int rc = 0;
  for (auto &f : files) {
    ClangTool T(DB, {f});
    int before = Errors;
    if (T.run(newFrontendActionFactory<Action>().get()) || Errors != before) { fprintf(Out, "E\t%s\n", f.c_str()); fprintf(stderr, "gx: errors in %s\n", f.c_str()); rc = 3; }
    else fprintf(Out, "U\t%s\n", f.c_str());
  }
  fclose(Out);
  return rc;
}
