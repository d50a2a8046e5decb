// cxxfacts: dumps the resolved program of one translation unit as JSON.
// usage: cxxfacts OUT.json ROOT[:ROOT...] file.cpp -- flags
// Only functions/records located under one of the ROOT prefixes (and not in EXCLUDE) are dumped with bodies.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::string OutPath, MainFile;
static std::vector<std::string> Roots;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C;
  SourceManager &SM;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  json::Object decls, types, records, enums, globals;
  json::Array functions;
  std::set<std::string> seenFn;
  std::map<const FunctionDecl *, std::string> fnIds;
  std::map<const CXXRecordDecl *, std::string> lambdaIds;
  std::map<std::string, int> lambdaCount;
  std::map<const Type *, std::string> typeIds;
  std::vector<const FunctionDecl *> pending;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = false;
    PP.AnonymousTagLocations = false; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  // ---------- locations
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> S(P.getFilename());
    SM.getFileManager().makeAbsolutePath(S);
    llvm::sys::path::remove_dots(S, true);
    return std::string(S.str());
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
    return false;
  }
  // ---------- ids
  std::string qn(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    PrintingPolicy P2 = PP;
    D->printQualifiedName(OS, P2);
    return OS.str();
  }
  std::string recId(const CXXRecordDecl *R) {
    if (!R) return "";
    if (R->isLambda()) return "lambda:" + lambdaId(R);
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  std::string lambdaId(const CXXRecordDecl *R) {
    auto It = lambdaIds.find(R);
    if (It != lambdaIds.end()) return It->second;
    // enclosing function
    const DeclContext *DC = R->getDeclContext();
    std::string enc = "?";
    while (DC && !DC->isTranslationUnit()) {
      if (auto *F = dyn_cast<FunctionDecl>(DC)) { enc = fnId(F); break; }
      DC = DC->getParent();
    }
    if (enc == "?") {
      enc = "file:" + fileOf(R->getBeginLoc());
    }
    SourceLocation L = SM.getExpansionLoc(R->getBeginLoc());
    int n = lambdaCount[enc]++;
    (void)L;
    std::string id = enc + "$L" + std::to_string(n);
    lambdaIds[R] = id;
    return id;
  }
  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto It = fnIds.find(F);
    if (It != fnIds.end()) return It->second;
    std::string id;
    if (auto *M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) {
      std::string lid = lambdaId(M->getParent());
      if (M->getOverloadedOperator() == OO_Call) id = lid;
      else id = lid + "$" + M->getNameAsString();
    } else {
      if (F->isDependentContext()) id = "dep:" + qn(F);
      else if (F->getBuiltinID() && !MC->shouldMangleDeclName(F)) id = F->getNameAsString();
      else if (MC->shouldMangleDeclName(F)) {
        llvm::raw_string_ostream OS(id);
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(CD, Ctor_Complete), OS);
        else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(DD, Dtor_Complete), OS);
        else MC->mangleName(GlobalDecl(F), OS);
        OS.flush();
      } else id = F->getNameAsString();
      if (!F->isExternallyVisible()) id += "@" + fileOf(F->getLocation());
    }
    fnIds[F] = id;
    return id;
  }
  std::string varId(const VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || isa<ParmVarDecl>(V)) {
      if (V->isStaticLocal()) return "static:" + V->getNameAsString() + "@" + fileOf(V->getLocation()) + ":" + std::to_string(lineOf(V->getLocation()));
      SourceLocation L = SM.getExpansionLoc(V->getLocation());
      return V->getNameAsString() + "@" + std::to_string(SM.getSpellingLineNumber(L)) + ":" + std::to_string(SM.getSpellingColumnNumber(L)) + (V->isImplicit() && V->getName().empty() ? "i" : "") +
             (isa<ParmVarDecl>(V) ? "#" + std::to_string(cast<ParmVarDecl>(V)->getFunctionScopeIndex()) : std::string());
    }
    std::string id = qn(V);
    if (!V->isExternallyVisible()) id += "@" + fileOf(V->getLocation());
    return id;
  }
  std::string fieldId(const FieldDecl *F) {
    auto *R = dyn_cast<CXXRecordDecl>(F->getParent());
    return (R ? recId(R) : qn(F->getParent())) + "::" + F->getNameAsString();
  }

  // ---------- types
  std::string typeOf(QualType Q) {
    if (Q.isNull()) return "";
    QualType CT = Q.getCanonicalType();
    std::string S = typeStr(CT);
    if (types.find(S) == types.end()) {
      json::Object O;
      types[S] = nullptr;
      const Type *T = CT.getTypePtr();
      O["const"] = CT.isConstQualified();
      if (T->isDependentType()) O["k"] = "dep";
      else if (auto *P = dyn_cast<PointerType>(T)) { O["k"] = "ptr"; O["p"] = typeOf(P->getPointeeType()); }
      else if (auto *P = dyn_cast<ReferenceType>(T)) { O["k"] = isa<RValueReferenceType>(T) ? "rref" : "ref"; O["p"] = typeOf(P->getPointeeType()); }
      else if (auto *A = dyn_cast<ArrayType>(T)) { O["k"] = "arr"; O["p"] = typeOf(A->getElementType());
        if (auto *CA = dyn_cast<ConstantArrayType>(T)) O["n"] = (int64_t)CA->getSize().getZExtValue(); }
      else if (auto *R = T->getAsCXXRecordDecl()) {
        O["k"] = "rec"; O["r"] = recId(R);
        O["lambda"] = R->isLambda();
        O["src"] = inRoots(R->getLocation());
        if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
          O["tmpl"] = qn(TS->getSpecializedTemplate());
          json::Array A;
          for (auto &TA : TS->getTemplateArgs().asArray()) addTArg(A, TA);
          O["args"] = std::move(A);
        }
      }
      else if (auto *E = dyn_cast<EnumType>(T)) { O["k"] = "enum"; O["e"] = qn(E->getDecl());
        if (E->getDecl()->isComplete()) { O["w"] = (int64_t)C.getTypeSize(CT); O["sg"] = CT->isSignedIntegerOrEnumerationType(); }
        if (inRoots(E->getDecl()->getLocation())) dumpEnum(E->getDecl()); }
      else if (auto *F = dyn_cast<FunctionProtoType>(T)) {
        O["k"] = "fn"; O["ret"] = typeOf(F->getReturnType());
        json::Array A; for (auto P : F->param_types()) A.push_back(typeOf(P)); O["params"] = std::move(A);
      }
      else if (T->isBooleanType()) { O["k"] = "bool"; O["w"] = 8; O["sg"] = false; }
      else if (T->isIntegerType()) { O["k"] = "int"; O["w"] = (int64_t)C.getTypeSize(CT); O["sg"] = T->isSignedIntegerType(); }
      else if (T->isFloatingType()) { O["k"] = "float"; O["w"] = (int64_t)C.getTypeSize(CT); }
      else if (T->isVoidType()) O["k"] = "void";
      else O["k"] = "other";
      types[S] = std::move(O);
    }
    return S;
  }
  void addTArg(json::Array &A, const TemplateArgument &TA) {
    if (TA.getKind() == TemplateArgument::Type) A.push_back(typeOf(TA.getAsType()));
    else if (TA.getKind() == TemplateArgument::Integral) A.push_back(llvm::toString(TA.getAsIntegral(), 10));
    else if (TA.getKind() == TemplateArgument::Pack) for (auto &X : TA.pack_elements()) addTArg(A, X);
    else A.push_back("?");
  }
  std::string typeStr(QualType CT) {
    const Type *T = CT.getTypePtr();
    std::string S;
    if (auto *R = T->getAsCXXRecordDecl(); R && R->isLambda() && !T->isPointerType() && !T->isReferenceType())
      S = (CT.isConstQualified() ? "const " : "") + recId(R);
    else if (auto *RT = dyn_cast<ReferenceType>(T)) S = typeStr(RT->getPointeeType().getCanonicalType()) + (isa<RValueReferenceType>(T) ? " &&" : " &");
    else S = CT.getAsString(PP);
    return S;
  }
  void dumpEnum(const EnumDecl *E) {
    std::string N = qn(E);
    if (enums.find(N) != enums.end()) return;
    json::Object O;
    json::Array A;
    for (auto *K : E->enumerators()) { json::Object X; X["n"] = K->getNameAsString(); X["v"] = llvm::toString(K->getInitVal(), 10); A.push_back(std::move(X)); }
    O["vals"] = std::move(A); O["file"] = fileOf(E->getLocation());
    O["under"] = E->getIntegerType().isNull() ? "" : typeOf(E->getIntegerType());
    enums[N] = std::move(O);
  }
  void noteRecord(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    if (!inRoots(R->getLocation())) return;
    std::string id = recId(R);
    if (records.find(id) != records.end()) return;
    records[id] = nullptr;
    json::Object O;
    O["file"] = fileOf(R->getLocation()); O["line"] = lineOf(R->getLocation());
    O["name"] = R->getNameAsString(); O["qn"] = qn(R); O["lambda"] = R->isLambda();
    O["local"] = R->isLocalClass() != nullptr;
    O["anon"] = R->isInAnonymousNamespace();
    json::Array B, F, M;
    for (auto &X : R->bases()) { if (auto *BR = X.getType()->getAsCXXRecordDecl()) { B.push_back(recId(BR)); noteRecord(BR); } }
    for (auto *X : R->fields()) {
      json::Object FO; FO["id"] = fieldId(X); FO["n"] = X->getNameAsString(); FO["t"] = typeOf(X->getType());
      FO["const"] = X->getType().isConstQualified(); FO["mut"] = X->isMutable(); FO["acc"] = (int)X->getAccess();
      FO["line"] = lineOf(X->getLocation());
      FO["hasinit"] = X->hasInClassInitializer();
      F.push_back(std::move(FO));
    }
    for (auto *X : R->methods()) { noteFn(X); M.push_back(fnId(X)); }
    O["bases"] = std::move(B); O["fields"] = std::move(F); O["methods"] = std::move(M);
    O["abstract"] = R->isAbstract();
    O["size"] = R->isLambda() ? 0 : (int64_t)(C.getTypeSize(C.getTypeDeclType(R)) / 8);
    O["trivcopy"] = R->isTriviallyCopyable();
    O["vdtor"] = R->getDestructor() ? R->getDestructor()->isVirtual() : false;
    O["poly"] = R->isPolymorphic();
    records[id] = std::move(O);
  }
  std::string noteFn(const FunctionDecl *F) {
    if (!F) return "";
    std::string id = fnId(F);
    if (decls.find(id) != decls.end()) return id;
    decls[id] = nullptr;
    json::Object O;
    O["qn"] = qn(F); O["n"] = F->getNameAsString();
    const FunctionDecl *Def = nullptr;
    F->isDefined(Def);
    SourceLocation L = Def ? Def->getLocation() : F->getLocation();
    O["src"] = inRoots(L);
    O["file"] = fileOf(L); O["line"] = lineOf(L);
    O["ret"] = typeOf(F->getReturnType());
    json::Array P; for (auto *X : F->parameters()) P.push_back(typeOf(X->getType()));
    O["params"] = std::move(P);
    std::string kind = "func";
    if (isa<CXXConstructorDecl>(F)) kind = "ctor";
    else if (isa<CXXDestructorDecl>(F)) kind = "dtor";
    else if (isa<CXXConversionDecl>(F)) kind = "conv";
    else if (isa<CXXMethodDecl>(F)) kind = "method";
    O["kind"] = kind;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recId(M->getParent());
      O["clsn"] = qn(M->getParent());
      O["const"] = M->isConst(); O["static"] = M->isStatic(); O["virt"] = M->isVirtual(); O["pure"] = M->isPureVirtual();
      O["acc"] = (int)M->getAccess();
      json::Array A; for (auto *X : M->overridden_methods()) { A.push_back(noteFn(X)); } O["over"] = std::move(A);
      noteRecord(M->getParent());
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { O["copy"] = CD->isCopyConstructor(); O["move"] = CD->isMoveConstructor(); O["dflt"] = CD->isDefaultConstructor(); }
      else { O["copy"] = M->isCopyAssignmentOperator(); O["move"] = M->isMoveAssignmentOperator(); }
    }
    if (F->getOverloadedOperator() != OO_None) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    auto *FPT = F->getType()->getAs<FunctionProtoType>();
    bool noex = false;
    if (FPT && !F->isDependentContext()) {
      auto EST = FPT->getExceptionSpecType();
      if (EST == EST_Unevaluated || EST == EST_Uninstantiated) { noex = isa<CXXDestructorDecl>(F); O["est"] = "uneval"; }
      else noex = FPT->isNothrow();
    }
    O["noex"] = noex;
    O["extc"] = F->isExternC();
    O["implicit"] = F->isImplicit(); O["defaulted"] = F->isDefaulted(); O["deleted"] = F->isDeleted();
    O["builtin"] = (int64_t)F->getBuiltinID();
    O["noret"] = F->isNoReturn();
    decls[id] = std::move(O);
    return id;
  }

  // ---------- bodies
  struct Body {
    json::Array nodes;
    std::map<const Stmt *, int> ids;
  };
  Body *B = nullptr;
  std::vector<const FunctionDecl *> lambdaQueue;

  static const Expr *strip(const Expr *E, bool &rd, std::vector<const Stmt *> &alias) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { alias.push_back(E); E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { alias.push_back(E); E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { alias.push_back(E); E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { alias.push_back(E); E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { alias.push_back(E); E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { alias.push_back(E); E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { alias.push_back(E); E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { alias.push_back(E); E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { alias.push_back(E); E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CastExpr>(E)) {
        bool explicitCast = isa<ExplicitCastExpr>(E);
        switch (P->getCastKind()) {
        case CK_LValueToRValue: if (!explicitCast) { rd = true; alias.push_back(E); E = P->getSubExpr(); continue; } break;
        case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
          alias.push_back(E); E = P->getSubExpr(); continue;
        default: break;
        }
      }
      return E;
    }
  }

  int emitNull() { json::Object O; O["k"] = "Null"; B->nodes.push_back(std::move(O)); return (int)B->nodes.size() - 1; }

  int dump(const Stmt *S) {
    if (!S) return -1;
    auto It = B->ids.find(S);
    if (It != B->ids.end()) return It->second;
    bool rd = false;
    std::vector<const Stmt *> alias;
    const Stmt *T = S;
    if (auto *E = dyn_cast<Expr>(S)) T = strip(E, rd, alias);
    int id;
    auto It2 = B->ids.find(T);
    if (It2 != B->ids.end()) id = It2->second;
    else {
      id = (int)B->nodes.size();
      B->nodes.push_back(nullptr);
      B->ids[T] = id;
      json::Object O = build(T);
      if (rd) O["rd"] = 1;
      B->nodes[id] = std::move(O);
    }
    for (auto *A : alias) B->ids[A] = id;
    B->ids[S] = id;
    return id;
  }
  void kid(json::Array &A, const Stmt *S) { A.push_back(dump(S)); }

  json::Object build(const Stmt *S) {
    json::Object O;
    json::Array K;
    SourceLocation BL = S->getBeginLoc();
    O["l"] = (int64_t)lineOf(BL);
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = typeOf(E->getType());
      if (E->isLValue()) O["lv"] = 1;
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() &&
          (isa<BinaryOperator>(E) || isa<UnaryOperator>(E) || isa<DeclRefExpr>(E) || isa<CastExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E) || isa<MemberExpr>(E))) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) O["cv"] = llvm::toString(R.Val.getInt(), 10);
      }
    }
    auto calleeInfo = [&](const FunctionDecl *F) { O["f"] = noteFn(F); if (F && F->getTemplateInstantiationPattern()) {} };
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
      O["k"] = "OpCall"; O["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *F = X->getDirectCallee();
      calleeInfo(F);
      O["mem"] = F && isa<CXXMethodDecl>(F);
      for (auto *A : X->arguments()) kid(K, A);
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
      O["k"] = "MCall";
      const FunctionDecl *F = X->getDirectCallee();
      if (F) calleeInfo(F); else O["f"] = nullptr;
      const Expr *Callee = X->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Callee)) {
        kid(K, ME->getBase()); O["arrow"] = ME->isArrow();
        O["qualified"] = ME->hasQualifier();
        O["el"] = (int64_t)lineOf(ME->getMemberLoc());
      } else kid(K, Callee);
      for (auto *A : X->arguments()) kid(K, A);
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      O["k"] = "Call";
      const FunctionDecl *F = X->getDirectCallee();
      if (F) calleeInfo(F); else { O["f"] = nullptr; kid(K, X->getCallee()); }
      for (auto *A : X->arguments()) kid(K, A);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "Ctor"; calleeInfo(X->getConstructor());
      O["elid"] = X->isElidable();
      if (X->requiresZeroInitialization()) O["zi"] = true;
      for (auto *A : X->arguments()) kid(K, A);
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      O["k"] = "Ctor"; calleeInfo(X->getConstructor());
    } else if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      O["k"] = "Ref";
      const ValueDecl *D = X->getDecl();
      O["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["d"] = varId(V);
        O["dk"] = V->isStaticLocal() ? "static" : isa<ParmVarDecl>(V) ? "param" : V->isLocalVarDecl() ? "local" : "global";
        if (X->refersToEnclosingVariableOrCapture()) O["cap"] = 1;
        if (!V->isLocalVarDeclOrParm() || V->isStaticLocal()) noteGlobal(V);
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "func"; O["d"] = noteFn(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["dk"] = "enumc"; O["d"] = qn(EC); O["v"] = llvm::toString(EC->getInitVal(), 10); }
      else { O["dk"] = "other"; O["d"] = qn(D); }
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) { O["k"] = "Mem"; O["d"] = fieldId(F); O["n"] = F->getNameAsString(); O["arrow"] = X->isArrow(); kid(K, X->getBase());
        noteRecord(dyn_cast<CXXRecordDecl>(F->getParent())); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { O["k"] = "Ref"; O["dk"] = "global"; O["d"] = varId(V); O["n"] = V->getNameAsString(); noteGlobal(V); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["k"] = "Ref"; O["dk"] = "func"; O["d"] = noteFn(F); O["n"] = F->getNameAsString(); kid(K, X->getBase()); }
      else { O["k"] = "Other"; O["n"] = D->getNameAsString(); kid(K, X->getBase()); }
    } else if (isa<CXXThisExpr>(S)) { O["k"] = "This"; }
    else if (auto *X = dyn_cast<UnaryOperator>(S)) { O["k"] = "Un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); O["post"] = X->isPostfix(); kid(K, X->getSubExpr()); }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(S)) { O["k"] = "Bin"; O["op"] = X->getOpcodeStr().str(); O["asg"] = 1; kid(K, X->getLHS()); kid(K, X->getRHS()); O["ct"] = typeOf(X->getComputationLHSType()); }
    else if (auto *X = dyn_cast<BinaryOperator>(S)) { O["k"] = "Bin"; O["op"] = X->getOpcodeStr().str(); if (X->isAssignmentOp()) O["asg"] = 1; kid(K, X->getLHS()); kid(K, X->getRHS()); }
    else if (auto *X = dyn_cast<CastExpr>(S)) {
      O["k"] = "Cast"; O["ck"] = X->getCastKindName(); O["ex"] = isa<ExplicitCastExpr>(S);
      kid(K, X->getSubExpr()); O["st"] = typeOf(X->getSubExpr()->getType());
    }
    else if (auto *X = dyn_cast<IntegerLiteral>(S)) { O["k"] = "Int"; O["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType()); }
    else if (auto *X = dyn_cast<FloatingLiteral>(S)) { O["k"] = "Float"; O["v"] = X->getValueAsApproximateDouble(); }
    else if (auto *X = dyn_cast<CharacterLiteral>(S)) { O["k"] = "Char"; O["v"] = (int64_t)X->getValue(); }
    else if (auto *X = dyn_cast<clang::StringLiteral>(S)) { O["k"] = "Str"; if (X->getCharByteWidth() == 1) O["v"] = json::fixUTF8(X->getString()); else O["v"] = ""; }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) { O["k"] = "Bool"; O["v"] = X->getValue(); }
    else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { O["k"] = "NullPtr"; }
    else if (auto *X = dyn_cast<ImplicitValueInitExpr>(S)) { (void)X; O["k"] = "ZeroInit"; }
    else if (auto *X = dyn_cast<CXXScalarValueInitExpr>(S)) { (void)X; O["k"] = "ZeroInit"; }
    else if (auto *X = dyn_cast<CXXNewExpr>(S)) { O["k"] = "New"; O["arr"] = X->isArray(); O["nt"] = typeOf(X->getAllocatedType());
      O["place"] = X->getNumPlacementArgs() > 0;
      if (X->getArraySize() && *X->getArraySize()) kid(K, *X->getArraySize());
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) kid(K, X->getPlacementArg(i));
      if (X->getInitializer()) kid(K, X->getInitializer()); }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { O["k"] = "Delete"; O["arr"] = X->isArrayForm(); kid(K, X->getArgument());
      if (auto *R = X->getDestroyedType().isNull() ? nullptr : X->getDestroyedType()->getAsCXXRecordDecl()) if (R->hasDefinition()) if (auto *D = R->getDestructor()) O["f"] = noteFn(D); }
    else if (auto *X = dyn_cast<AbstractConditionalOperator>(S)) { O["k"] = "Cond"; kid(K, X->getCond()); kid(K, X->getTrueExpr()); kid(K, X->getFalseExpr()); }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(S)) { O["k"] = "Sub"; kid(K, X->getBase()); kid(K, X->getIdx()); }
    else if (auto *X = dyn_cast<InitListExpr>(S)) { O["k"] = "InitList"; 
      const InitListExpr *Sem = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (auto *I : Sem->inits()) kid(K, I);
      if (Sem != X) B->ids[Sem] = B->ids[X];
      if (auto *Syn = X->getSyntacticForm()) B->ids[Syn] = B->ids[X]; }
    else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      O["k"] = "Lambda"; O["f"] = noteFn(X->getCallOperator());
      json::Array Caps;
      auto IE = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        json::Object CO;
        if (Cp.capturesThis()) CO["d"] = "this";
        else if (Cp.capturesVariable()) { if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar())) { CO["d"] = varId(V); CO["t"] = typeOf(V->getType()); } }
        CO["ref"] = Cp.getCaptureKind() == LCK_ByRef || Cp.getCaptureKind() == LCK_This;
        if (IE != X->capture_init_end()) { if (*IE && !Cp.capturesThis()) { int kx = dump(*IE); CO["i"] = kx; K.push_back(kx); } ++IE; }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      lambdaQueue.push_back(X->getCallOperator());
    }
    else if (auto *X = dyn_cast<CXXThrowExpr>(S)) { O["k"] = "Throw"; if (X->getSubExpr()) { kid(K, X->getSubExpr()); O["tt"] = typeOf(X->getSubExpr()->getType()); } else O["re"] = true; }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { O["k"] = "SizeOf"; if (X->isArgumentType()) O["at"] = typeOf(X->getArgumentType()); else O["at"] = typeOf(X->getArgumentExpr()->getType()); }
    else if (auto *X = dyn_cast<CXXTypeidExpr>(S)) { O["k"] = "TypeId"; if (X->isTypeOperand()) O["at"] = typeOf(X->getTypeOperandSourceInfo()->getType()); else kid(K, X->getExprOperand()); }
    else if (auto *X = dyn_cast<CompoundStmt>(S)) { O["k"] = "Block"; O["el"] = (int64_t)lineOf(X->getRBracLoc()); for (auto *I : X->body()) kid(K, I); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl"; json::Array V;
      for (auto *D : X->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) {
        json::Object VO; VO["d"] = varId(VD); VO["n"] = VD->getNameAsString(); VO["t"] = typeOf(VD->getType());
        VO["static"] = VD->isStaticLocal();
        if (VD->getInit()) { int k = dump(VD->getInit()); VO["i"] = k; K.push_back(k); }
        if (VD->isStaticLocal()) noteGlobal(VD);
        V.push_back(std::move(VO));
      }
      O["vars"] = std::move(V);
    }
    else if (auto *X = dyn_cast<IfStmt>(S)) { O["k"] = "If"; if (X->getInit()) kid(K, X->getInit()); if (X->getConditionVariableDeclStmt()) kid(K, X->getConditionVariableDeclStmt());
      O["cond"] = dump(X->getCond()); O["then"] = dump(X->getThen()); O["else"] = dump(X->getElse());
      K.push_back(dump(X->getCond())); K.push_back(dump(X->getThen())); if (X->getElse()) K.push_back(dump(X->getElse())); }
    else if (auto *X = dyn_cast<ForStmt>(S)) { O["k"] = "For"; O["init"] = dump(X->getInit()); O["cond"] = dump(X->getCond()); O["inc"] = dump(X->getInc()); O["body"] = dump(X->getBody());
      for (auto *Y : {(const Stmt *)X->getInit(), (const Stmt *)X->getCond(), (const Stmt *)X->getInc(), (const Stmt *)X->getBody()}) if (Y) kid(K, Y); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "While"; if (X->getConditionVariableDeclStmt()) kid(K, X->getConditionVariableDeclStmt()); O["cond"] = dump(X->getCond()); O["body"] = dump(X->getBody()); kid(K, X->getCond()); kid(K, X->getBody()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "Do"; O["cond"] = dump(X->getCond()); O["body"] = dump(X->getBody()); kid(K, X->getBody()); kid(K, X->getCond()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RFor";
      for (auto *Y : {(const Stmt *)X->getRangeStmt(), (const Stmt *)X->getBeginStmt(), (const Stmt *)X->getEndStmt(), (const Stmt *)X->getCond(), (const Stmt *)X->getInc(), (const Stmt *)X->getLoopVarStmt(), (const Stmt *)X->getBody()}) if (Y) kid(K, Y);
      O["range"] = dump(X->getRangeInit()); O["body"] = dump(X->getBody()); O["cond"] = dump(X->getCond());
      O["var"] = varId(X->getLoopVariable()); O["vt"] = typeOf(X->getLoopVariable()->getType());
      O["rvar"] = X->getRangeStmt() ? varId(cast<VarDecl>(X->getRangeStmt()->getSingleDecl())) : "";
    }
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "Switch"; O["cond"] = dump(X->getCond()); O["body"] = dump(X->getBody()); kid(K, X->getCond()); kid(K, X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "Case"; kid(K, X->getLHS()); Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) O["v"] = llvm::toString(R.Val.getInt(), 10); kid(K, X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "Default"; kid(K, X->getSubStmt()); }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "Return"; if (X->getRetValue()) kid(K, X->getRetValue()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) { O["k"] = "Try"; kid(K, X->getTryBlock()); for (unsigned i = 0; i < X->getNumHandlers(); ++i) kid(K, X->getHandler(i)); }
    else if (auto *X = dyn_cast<CXXCatchStmt>(S)) { O["k"] = "Catch"; O["ct"] = X->getCaughtType().isNull() ? "..." : typeOf(X->getCaughtType());
      if (X->getExceptionDecl()) O["var"] = varId(X->getExceptionDecl()); kid(K, X->getHandlerBlock()); }
    else if (isa<BreakStmt>(S)) O["k"] = "Break";
    else if (isa<ContinueStmt>(S)) O["k"] = "Continue";
    else if (isa<NullStmt>(S)) O["k"] = "Empty";
    else { O["k"] = std::string("X:") + S->getStmtClassName(); for (auto *I : S->children()) if (I) kid(K, I); }
    if (!K.empty()) O["c"] = std::move(K);
    return O;
  }
  void noteGlobal(const VarDecl *V) {
    std::string id = varId(V);
    if (globals.find(id) != globals.end()) return;
    json::Object O; O["n"] = V->getNameAsString(); O["t"] = typeOf(V->getType()); O["file"] = fileOf(V->getLocation()); O["line"] = lineOf(V->getLocation());
    O["const"] = V->getType().isConstQualified(); O["src"] = inRoots(V->getLocation());
    O["local"] = V->isStaticLocal(); O["mem"] = V->isStaticDataMember();
    const VarDecl *Def = V; const Expr *I = V->getAnyInitializer(Def);
    if (I && V->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified()) { Expr::EvalResult R; if (!I->isValueDependent() && I->EvaluateAsInt(R, C)) O["cv"] = llvm::toString(R.Val.getInt(), 10); }
    if (I && V->getType()->isRealFloatingType() && !I->isValueDependent()) { Expr::EvalResult R; if (I->EvaluateAsRValue(R, C) && R.Val.isFloat()) O["fv"] = R.Val.getFloat().convertToDouble(); }
    if (I) { bool rd; std::vector<const Stmt*> al; if (auto *SL = dyn_cast<clang::StringLiteral>(strip(I, rd, al))) O["sv"] = json::fixUTF8(SL->getString());
      else if (auto *CE = dyn_cast<CXXConstructExpr>(strip(I, rd, al))) { if (CE->getNumArgs() >= 1) if (auto *SL2 = dyn_cast<clang::StringLiteral>(strip(CE->getArg(0), rd, al))) O["sv"] = json::fixUTF8(SL2->getString()); } }
    globals[id] = std::move(O);
  }

  void dumpFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def) || !Def->doesThisDeclarationHaveABody()) return;
    F = Def;
    if (F->isDependentContext() || F->isDeleted()) return;
    if (F->isDefaulted() && !F->isUserProvided()) return;
    if (!inRoots(F->getLocation())) return;
    std::string id = noteFn(F);
    if (!seenFn.insert(id).second) return;
    json::Object O;
    O["id"] = id; O["file"] = fileOf(F->getLocation()); O["line"] = lineOf(F->getLocation());
    O["endline"] = lineOf(F->getBodyRBrace());
    O["tinst"] = F->isTemplateInstantiation();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      O["lambda"] = true;
      const DeclContext *DC = M->getParent()->getDeclContext();
      while (DC && !DC->isTranslationUnit()) { if (auto *EF = dyn_cast<FunctionDecl>(DC)) { O["encl"] = fnId(EF); break; } DC = DC->getParent(); }
    }
    json::Array P;
    for (auto *X : F->parameters()) { json::Object PO; PO["d"] = varId(X); PO["n"] = X->getNameAsString(); PO["t"] = typeOf(X->getType()); P.push_back(std::move(PO)); }
    O["params"] = std::move(P);
    Body body; Body *save = B; B = &body;
    json::Array Inits;
    std::map<const CXXCtorInitializer *, int> initIdx;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      for (auto *I : CD->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) { IO["field"] = fieldId(I->getAnyMember()); }
        else if (I->isBaseInitializer()) { IO["base"] = typeOf(QualType(I->getBaseClass(), 0)); }
        else IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["i"] = dump(I->getInit());
        initIdx[I] = (int)Inits.size();
        Inits.push_back(std::move(IO));
      }
    }
    O["inits"] = std::move(Inits);
    O["body"] = dump(F->getBody());
    // CFG
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd(); BO.AddImplicitDtors = true; BO.AddInitializers = true; BO.AddTemporaryDtors = false; BO.PruneTriviallyFalseEdges = false; BO.AddEHEdges = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (G) {
      json::Object GO; json::Array Blocks;
      GO["entry"] = (int64_t)G->getEntry().getBlockID(); GO["exit"] = (int64_t)G->getExit().getBlockID();
      for (const CFGBlock *Bk : *G) {
        json::Object BOb; json::Array E, Su;
        int last = -1;
        for (const CFGElement &El : *Bk) {
          if (auto SE = El.getAs<CFGStmt>()) {
            auto It = body.ids.find(SE->getStmt());
            int sid = It != body.ids.end() ? It->second : -1;
            if (sid < 0) {
              // synthesized (e.g. per-declarator DeclStmt): dump on demand
              if (isa<DeclStmt>(SE->getStmt()) || isa<Expr>(SE->getStmt())) sid = dump(SE->getStmt());
            }
            if (sid >= 0 && sid != last) { E.push_back(sid); last = sid; }
          } else if (auto IE = El.getAs<CFGInitializer>()) { json::Array A{"i", initIdx[IE->getInitializer()]}; E.push_back(std::move(A)); last = -1; }
          else if (auto DE = El.getAs<CFGAutomaticObjDtor>()) {
            json::Array A{"d", varId(DE->getVarDecl())};
            if (auto *DD = DE->getDestructorDecl(C)) A.push_back(noteFn(DD));
            E.push_back(std::move(A)); last = -1; }
          else if (auto DE = El.getAs<CFGDeleteDtor>()) { (void)DE; }
        }
        for (auto &S : Bk->succs()) { const CFGBlock *R = S.getReachableBlock(); if (!R) R = S.getPossiblyUnreachableBlock(); Su.push_back(R ? json::Value((int64_t)R->getBlockID()) : json::Value(nullptr)); }
        BOb["id"] = (int64_t)Bk->getBlockID(); BOb["e"] = std::move(E); BOb["s"] = std::move(Su);
        if (const Stmt *T = Bk->getTerminatorStmt()) { auto It = body.ids.find(T); BOb["term"] = It != body.ids.end() ? It->second : -1; BOb["termk"] = T->getStmtClassName();
          if (const Stmt *TC = Bk->getTerminatorCondition()) { auto It2 = body.ids.find(TC); BOb["cond"] = It2 != body.ids.end() ? It2->second : -1; } }
        if (const Stmt *L = Bk->getLabel()) { auto It = body.ids.find(L); BOb["label"] = It != body.ids.end() ? It->second : -1; }
        if (Bk->hasNoReturnElement()) BOb["noret"] = true;
        Blocks.push_back(std::move(BOb));
      }
      GO["blocks"] = std::move(Blocks);
      O["cfg"] = std::move(GO);
    } else O["cfg"] = nullptr;
    O["nodes"] = std::move(body.nodes);
    B = save;
    functions.push_back(std::move(O));
    std::vector<const FunctionDecl *> q; q.swap(lambdaQueue);
    for (auto *L : q) dumpFunction(L);
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (F->isThisDeclarationADefinition()) dumpFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (!R->isLambda() && R->isThisDeclarationADefinition()) noteRecord(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { if (inRoots(E->getLocation()) && E->isThisDeclarationADefinition() && !E->isDependentContext()) dumpEnum(E); return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
    if (V->hasGlobalStorage() && inRoots(V->getLocation())) {
      noteGlobal(V);
      if (!V->isStaticLocal() && V->isThisDeclarationADefinition() && V->getInit() && !V->isLocalVarDecl()) {
        std::string id = "ginit:" + varId(V);
        if (seenFn.insert(id).second) {
          json::Object O; O["id"] = id; O["file"] = fileOf(V->getLocation()); O["line"] = lineOf(V->getLocation()); O["endline"] = lineOf(V->getEndLoc());
          O["ginit"] = varId(V); O["params"] = json::Array(); O["inits"] = json::Array();
          Body body; Body *save = B; B = &body;
          O["body"] = dump(V->getInit()); O["cfg"] = nullptr; O["nodes"] = std::move(body.nodes); B = save;
          functions.push_back(std::move(O));
          std::vector<const FunctionDecl *> q; q.swap(lambdaQueue);
          for (auto *L : q) dumpFunction(L);
        }
      }
    }
    return true;
  }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  Consumer(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    if (!C.getDiagnostics().hasErrorOccurred()) D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O;
    O["main"] = MainFile;
    O["errors"] = C.getDiagnostics().hasErrorOccurred();
    O["decls"] = std::move(D.decls); O["types"] = std::move(D.types); O["records"] = std::move(D.records); O["enums"] = std::move(D.enums);
    O["globals"] = std::move(D.globals); O["functions"] = std::move(D.functions);
    json::Array Deps;
    SourceManager &SM = C.getSourceManager();
    for (auto I = SM.fileinfo_begin(); I != SM.fileinfo_end(); ++I) {
      llvm::SmallString<256> S(I->first.getName());
      SM.getFileManager().makeAbsolutePath(S); llvm::sys::path::remove_dots(S, true);
      Deps.push_back(std::string(S.str()));
    }
    O["deps"] = std::move(Deps);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
class Factory : public tooling::FrontendActionFactory {
public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: cxxfacts OUT ROOT[:ROOT] FILE -- flags\n"; return 2; }
  OutPath = argv[1];
  StringRef R(argv[2]); llvm::SmallVector<StringRef, 4> Rs; R.split(Rs, ':');
  for (auto &X : Rs) Roots.push_back(X.str());
  MainFile = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {MainFile});
  Factory F;
  return Tool.run(&F);
}
