// hx: dump the resolved program (AST after semantic analysis, all template
// instantiations) of the functions defined under the given source roots as JSON lines.
#include "clang/AST/AST.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;
static std::vector<std::string> roots;
static std::string outPath;
static int numErrors = 0;

struct Dumper {
    ASTContext &C; SourceManager &SM; llvm::raw_ostream &OS;
    PrintingPolicy PP;
    std::map<const void*, int> declIds, typeIds, funcIds, recIds;
    std::deque<const FunctionDecl*> work;
    std::set<const FunctionDecl*> done;
    std::deque<const CXXRecordDecl*> recwork;
    Dumper(ASTContext &C, llvm::raw_ostream &OS): C(C), SM(C.getSourceManager()), OS(OS), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true; PP.Bool = true; PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace = true;
        PP.AnonymousTagLocations = false;
    }
    void line(json::Object &&o){ OS << json::Value(std::move(o)) << "\n"; }
    int did(const Decl *d){
        const void *k = d->getCanonicalDecl();
        auto it = declIds.find(k); if (it != declIds.end()) return it->second;
        int n = declIds.size() + 1; declIds[k] = n; return n;
    }
    std::string fileOf(SourceLocation l){
        if (l.isInvalid()) return "";
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? p.getFilename() : "";
    }
    int lineOf(SourceLocation l){
        if (l.isInvalid()) return 0;
        PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        return p.isValid() ? p.getLine() : 0;
    }
    bool inRoots(SourceLocation l){
        std::string f = fileOf(l);
        for (auto &r : roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    std::string qname(const NamedDecl *d){
        std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os, PP); return os.str();
    }
    std::string tstr(QualType t){ return t.getCanonicalType().getAsString(PP); }
    int ty(QualType t){
        if (t.isNull()) return 0;
        QualType c = t.getCanonicalType();
        const void *k = c.getAsOpaquePtr();
        auto it = typeIds.find(k); if (it != typeIds.end()) return it->second;
        int n = typeIds.size() + 1; typeIds[k] = n;
        json::Object o; o["R"] = "type"; o["id"] = n; o["s"] = c.getAsString(PP);
        if (c.isConstQualified()) o["const"] = true;
        const Type *T = c.getTypePtr();
        if (!T->isDependentType() && !T->isIncompleteType() && !T->isFunctionType() && !T->isReferenceType() && !T->isVoidType())
            o["size"] = (int64_t)C.getTypeSizeInChars(c).getQuantity();
        if (T->isBooleanType()) o["k"] = "bool";
        else if (auto *et = dyn_cast<EnumType>(T)) { o["k"] = "enum"; o["name"] = qname(et->getDecl()); }
        else if (T->isIntegerType()) { o["k"] = "int"; o["bits"] = (int64_t)C.getTypeSize(c); o["signed"] = T->isSignedIntegerType(); }
        else if (T->isFloatingType()) { o["k"] = "float"; o["bits"] = (int64_t)C.getTypeSize(c); }
        else if (T->isReferenceType()) { o["k"] = "ref"; o["rv"] = T->isRValueReferenceType(); o["el"] = ty(T->getPointeeType()); }
        else if (T->isPointerType()) { o["k"] = "ptr"; o["el"] = ty(T->getPointeeType()); }
        else if (T->isNullPtrType()) o["k"] = "nullptr";
        else if (T->isArrayType()) {
            o["k"] = "arr"; o["el"] = ty(C.getAsArrayType(c)->getElementType());
            if (auto *ca = C.getAsConstantArrayType(c)) o["n"] = (int64_t)ca->getSize().getZExtValue();
        }
        else if (auto *rd = T->getAsCXXRecordDecl()) { o["k"] = "rec"; o["rec"] = rec(rd); }
        else if (T->isVoidType()) o["k"] = "void";
        else if (T->isFunctionType()) o["k"] = "fn";
        else if (T->isVectorType()) { o["k"] = "vec"; }
        else o["k"] = "other";
        line(std::move(o));
        return n;
    }
    json::Array targs(const TemplateArgumentList &L){
        json::Array a;
        for (auto &x : L.asArray()) targ(x, a);
        return a;
    }
    void targ(const TemplateArgument &x, json::Array &a){
        switch (x.getKind()) {
        case TemplateArgument::Type: a.push_back(tstr(x.getAsType())); break;
        case TemplateArgument::Integral: { llvm::SmallString<32> s; x.getAsIntegral().toString(s, 10); a.push_back(std::string(s)); break; }
        case TemplateArgument::Template: a.push_back(qname(x.getAsTemplate().getAsTemplateDecl())); break;
        case TemplateArgument::Pack: for (auto &y : x.getPackAsArray()) targ(y, a); break;
        default: { std::string s; llvm::raw_string_ostream os(s); x.print(PP, os, true); a.push_back(os.str()); }
        }
    }
    int rec(const CXXRecordDecl *rd){
        rd = rd->getDefinition() ? rd->getDefinition() : rd;
        const void *k = rd->getCanonicalDecl();
        auto it = recIds.find(k); if (it != recIds.end()) return it->second;
        int n = recIds.size() + 1; recIds[k] = n;
        recwork.push_back(rd);
        return n;
    }
    void dumpRec(const CXXRecordDecl *rd){
        json::Object o; o["R"] = "rec"; o["id"] = recIds[rd->getCanonicalDecl()];
        o["q"] = qname(rd); o["file"] = fileOf(rd->getLocation()); o["line"] = lineOf(rd->getLocation());
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
            if (!rd->isDependentContext()) { o["ta"] = targs(sp->getTemplateArgs());
                json::Array tt; for (auto &x : sp->getTemplateArgs().asArray()) tt.push_back(x.getKind() == TemplateArgument::Type ? ty(x.getAsType()) : 0);
                o["tat"] = std::move(tt); }
        }
        o["s"] = tstr(C.getRecordType(rd));
        if (rd->isLambda()) o["lambda"] = true;
        if (rd->isUnion()) o["union"] = true;
        bool ours = inRoots(rd->getLocation());
        o["ours"] = ours;
        if (rd->hasDefinition()) {
            if (rd->isPolymorphic()) o["poly"] = true;
            json::Array bs;
            for (auto &b : rd->bases())
                if (auto *br = b.getType()->getAsCXXRecordDecl()) bs.push_back(rec(br));
            o["bases"] = std::move(bs);
            if (ours) {
                json::Array fs;
                for (auto *f : rd->fields()) {
                    json::Object fo; fo["d"] = did(f); fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType());
                    fo["line"] = lineOf(f->getLocation());
                    if (f->isMutable()) fo["mut"] = true;
                    if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
                    fo["acc"] = (int)f->getAccess();
                    fs.push_back(std::move(fo));
                }
                o["fields"] = std::move(fs);
                json::Array ms;
                for (auto *m : rd->methods()) { if (!m->isDependentContext()) ms.push_back(func(m)); }
                for (auto *dd : rd->decls())
                    if (auto *ft = dyn_cast<FunctionTemplateDecl>(dd))
                        for (auto *s : ft->specializations()) if (!s->isDependentContext()) ms.push_back(func(s));
                o["methods"] = std::move(ms);
                if (auto *dt = rd->getDestructor()) {
                    o["dtor"] = func(dt);
                }
                o["copyctor"] = rd->hasSimpleCopyConstructor() || rd->hasUserDeclaredCopyConstructor();
                bool cdel = false, adel = false;
                for (auto *ct : rd->ctors()) if (ct->isCopyConstructor() && ct->isDeleted()) cdel = true;
                for (auto *m : rd->methods()) if (m->isCopyAssignmentOperator() && m->isDeleted()) adel = true;
                o["copydel"] = cdel; o["asgdel"] = adel;
                if (rd->defaultedCopyConstructorIsDeleted()) o["copydel"] = true;
            }
        }
        line(std::move(o));
    }
    int func(const FunctionDecl *f){
        const void *k = f->getCanonicalDecl();
        auto it = funcIds.find(k); if (it != funcIds.end()) return it->second;
        int n = funcIds.size() + 1; funcIds[k] = n;
        work.push_back(f);
        return n;
    }
    // ---------------------------------------------------------------- functions
    void dumpFunc(const FunctionDecl *f0){
        const FunctionDecl *f = f0; const FunctionDecl *def = nullptr;
        if (f->hasBody(def)) f = def;
        json::Object o; o["R"] = "fn"; o["id"] = funcIds[f0->getCanonicalDecl()];
        o["q"] = qname(f); o["n"] = f->getNameAsString();
        o["file"] = fileOf(f->getLocation()); o["line"] = lineOf(f->getLocation());
        bool ours = inRoots(f->getLocation());
        o["ours"] = ours;
        if (auto *ta = f->getTemplateSpecializationArgs()) { if (!f->isDependentContext()) o["ta"] = targs(*ta); }
        if (auto *pt = f->getPrimaryTemplate()) o["tp"] = did(pt);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = rec(m->getParent());
            if (m->isStatic()) o["static"] = true;
            if (m->isVirtual()) o["virtual"] = true;
            if (m->isConst()) o["const"] = true;
            json::Array ov; for (auto *x : m->overridden_methods()) ov.push_back(func(x));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (auto *ct = dyn_cast<CXXConstructorDecl>(m)) {
                o["k"] = "ctor";
                if (ct->isCopyConstructor()) o["copy"] = true;
                if (ct->isMoveConstructor()) o["move"] = true;
                if (ct->isExplicit()) o["explicit"] = true;
            } else if (isa<CXXDestructorDecl>(m)) o["k"] = "dtor";
            else if (isa<CXXConversionDecl>(m)) o["k"] = "conv";
            else o["k"] = "method";
            o["acc"] = (int)m->getAccess();
            if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) o["asg"] = true;
        } else o["k"] = "func";
        if (f->isOverloadedOperator()) o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (f->isDeleted()) o["deleted"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (f->isNoReturn()) o["noret"] = true;
        if (f->isExternC()) o["extc"] = true;
        if (f->isPureVirtual()) o["pure"] = true;
        if (f->getStorageClass() == SC_Static || f->isInAnonymousNamespace()) o["internal"] = true;
        o["ret"] = ty(f->getReturnType());
        json::Array ps;
        for (auto *p : f->parameters()) {
            json::Object po; po["d"] = did(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (f->isVariadic()) o["variadic"] = true;
        bool dep = f->isDependentContext();
        if (dep) o["dep"] = true;
        if (ours && !dep) {
            if (auto *ct = dyn_cast<CXXConstructorDecl>(f)) {
                json::Array is;
                for (auto *i : ct->inits()) {
                    json::Object io;
                    if (i->isMemberInitializer()) { io["fld"] = did(i->getMember()); io["n"] = i->getMember()->getNameAsString(); }
                    else if (i->isBaseInitializer()) { io["base"] = ty(QualType(i->getBaseClass(), 0)); }
                    else if (i->isDelegatingInitializer()) { io["deleg"] = true; }
                    io["e"] = expr(i->getInit()); io["l"] = lineOf(i->getSourceLocation());
                    if (i->isWritten()) io["w"] = true;
                    is.push_back(std::move(io));
                }
                o["inits"] = std::move(is);
            }
            if (f->hasBody()) {
                o["body"] = stmt(f->getBody());
                o["eline"] = lineOf(f->getBody()->getEndLoc());
            }
        }
        line(std::move(o));
    }
    // ---------------------------------------------------------------- statements
    json::Value vardecl(const VarDecl *v){
        json::Object o; o["d"] = did(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType()); o["l"] = lineOf(v->getLocation());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->hasGlobalStorage() && !v->isStaticLocal()) o["global"] = true;
        if (v->isConstexpr()) o["constexpr"] = true;
        if (auto *i = v->getInit()) o["init"] = expr(i);
        return json::Value(std::move(o));
    }
    json::Value stmt(const Stmt *s){
        if (!s) return nullptr;
        json::Object o;
        if (auto *e = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = expr(e); o["l"] = lineOf(e->getExprLoc()); return json::Value(std::move(o)); }
        o["l"] = lineOf(s->getBeginLoc());
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: { o["k"] = "block"; json::Array a; for (auto *c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c)); o["s"] = std::move(a); o["el"] = lineOf(s->getEndLoc()); break; }
        case Stmt::DeclStmtClass: {
            o["k"] = "decl"; json::Array a;
            for (auto *d : cast<DeclStmt>(s)->decls()) if (auto *v = dyn_cast<VarDecl>(d)) {
                a.push_back(vardecl(v));
                if (auto *dd = dyn_cast<DecompositionDecl>(v)) for (auto *b : dd->bindings()) { json::Object bo; bo["binding"] = did(b); bo["n"] = b->getNameAsString(); if (b->getBinding()) bo["e"] = expr(b->getBinding()); a.push_back(std::move(bo)); }
            }
            o["vars"] = std::move(a); break; }
        case Stmt::IfStmtClass: { auto *x = cast<IfStmt>(s); o["k"] = "if";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); if (x->getElse()) o["b"] = stmt(x->getElse());
            if (x->isConstexpr()) o["cx"] = true; break; }
        case Stmt::ForStmtClass: { auto *x = cast<ForStmt>(s); o["k"] = "for";
            if (x->getInit()) o["init"] = stmt(x->getInit()); if (x->getCond()) o["c"] = expr(x->getCond());
            if (x->getInc()) o["inc"] = expr(x->getInc()); o["b"] = stmt(x->getBody()); break; }
        case Stmt::CXXForRangeStmtClass: { auto *x = cast<CXXForRangeStmt>(s); o["k"] = "rfor";
            if (x->getInit()) o["init"] = stmt(x->getInit());
            o["range"] = expr(x->getRangeInit()); o["var"] = vardecl(x->getLoopVariable()); o["b"] = stmt(x->getBody()); break; }
        case Stmt::WhileStmtClass: { auto *x = cast<WhileStmt>(s); o["k"] = "while"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
            if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable()); break; }
        case Stmt::DoStmtClass: { auto *x = cast<DoStmt>(s); o["k"] = "do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); break; }
        case Stmt::ReturnStmtClass: { auto *x = cast<ReturnStmt>(s); o["k"] = "ret"; if (x->getRetValue()) o["e"] = expr(x->getRetValue()); break; }
        case Stmt::BreakStmtClass: o["k"] = "break"; break;
        case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
        case Stmt::NullStmtClass: o["k"] = "null"; break;
        case Stmt::SwitchStmtClass: { auto *x = cast<SwitchStmt>(s); o["k"] = "switch"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); if (x->getInit()) o["init"] = stmt(x->getInit()); break; }
        case Stmt::CaseStmtClass: { auto *x = cast<CaseStmt>(s); o["k"] = "case"; o["v"] = expr(x->getLHS()); o["b"] = stmt(x->getSubStmt()); break; }
        case Stmt::DefaultStmtClass: { auto *x = cast<DefaultStmt>(s); o["k"] = "default"; o["b"] = stmt(x->getSubStmt()); break; }
        case Stmt::CXXTryStmtClass: { auto *x = cast<CXXTryStmt>(s); o["k"] = "try"; o["b"] = stmt(x->getTryBlock()); json::Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); i++) { auto *h = x->getHandler(i); json::Object ho;
                if (h->getExceptionDecl()) { ho["t"] = ty(h->getExceptionDecl()->getType()); ho["d"] = did(h->getExceptionDecl()); }
                ho["b"] = stmt(h->getHandlerBlock()); a.push_back(std::move(ho)); }
            o["h"] = std::move(a); break; }
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::LabelStmtClass: o["k"] = "label"; o["b"] = stmt(cast<LabelStmt>(s)->getSubStmt()); break;
        case Stmt::GotoStmtClass: o["k"] = "goto"; break;
        default: o["k"] = "unk"; o["c"] = s->getStmtClassName();
        }
        return json::Value(std::move(o));
    }
    // ---------------------------------------------------------------- expressions
    json::Array exprs(llvm::ArrayRef<const Expr*> xs){ json::Array a; for (auto *x : xs) a.push_back(expr(x)); return a; }
    template<class It> json::Array args(It b, It e){ json::Array a; for (; b != e; ++b) a.push_back(expr(*b)); return a; }
    bool foldable(const Expr *e){
        // value of an integral constant expression that is not a plain variable reference of mutable kind
        switch (e->getStmtClass()) {
        case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass:
        case Stmt::SubstNonTypeTemplateParmExprClass: case Stmt::SizeOfPackExprClass: return true;
        case Stmt::DeclRefExprClass: {
            auto *d = cast<DeclRefExpr>(e)->getDecl();
            if (isa<EnumConstantDecl>(d) || isa<NonTypeTemplateParmDecl>(d)) return true;
            if (auto *v = dyn_cast<VarDecl>(d)) return v->isConstexpr() || (v->isStaticDataMember() && v->getType().isConstQualified());
            return false; }
        case Stmt::CXXStaticCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::BinaryOperatorClass: return true;
        default: return false;
        }
    }
    json::Value expr(const Expr *e){
        if (!e) return nullptr;
        // strip the uninteresting
        while (true) {
            if (auto *p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<ExprWithCleanups>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto *p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<GenericSelectionExpr>(e)) { e = p->getResultExpr(); continue; }
            if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = p->getSemanticForm(); continue; }
            if (auto *p = dyn_cast<UnaryOperator>(e)) { if (p->getOpcode() == UO_Extension) { e = p->getSubExpr(); continue; } }
            break;
        }
        json::Object o;
        o["l"] = lineOf(e->getExprLoc());
        auto T = [&](){ o["t"] = ty(e->getType()); };
        if (!e->isTypeDependent() && !e->isValueDependent() && e->isPRValue() && foldable(e) && e->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R;
            if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                o["k"] = e->getType()->isBooleanType() ? "bool" : "int";
                llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
                if (e->getType()->isBooleanType()) o["v"] = R.Val.getInt().getBoolValue();
                else if (R.Val.getInt().getSignificantBits() <= 63) o["v"] = R.Val.getInt().getExtValue(); else o["v"] = std::string(s);
                if (auto *dr = dyn_cast<DeclRefExpr>(e)) if (auto *ec = dyn_cast<EnumConstantDecl>(dr->getDecl())) o["en"] = qname(ec);
                T(); return json::Value(std::move(o));
            }
        }
        if (!e->isTypeDependent() && !e->isValueDependent() && e->isGLValue() && e->getType()->isIntegralOrEnumerationType()) {
            if (auto *dr = dyn_cast<DeclRefExpr>(e)) if (auto *v = dyn_cast<VarDecl>(dr->getDecl()))
                if (v->isConstexpr() || (v->hasGlobalStorage() && v->getType().isConstQualified())) {
                    Expr::EvalResult R;
                    if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                        o["k"] = e->getType()->isBooleanType() ? "bool" : "int";
                        if (e->getType()->isBooleanType()) o["v"] = R.Val.getInt().getBoolValue(); else o["v"] = R.Val.getInt().getExtValue();
                        T(); return json::Value(std::move(o));
                    }
                }
        }
        switch (e->getStmtClass()) {
        case Stmt::IntegerLiteralClass: { o["k"] = "int"; auto v = cast<IntegerLiteral>(e)->getValue(); if (v.getActiveBits() < 63) o["v"] = (int64_t)v.getZExtValue(); else { llvm::SmallString<32> s; v.toStringUnsigned(s); o["v"] = std::string(s);} T(); break; }
        case Stmt::CharacterLiteralClass: o["k"] = "int"; o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue(); T(); break;
        case Stmt::FloatingLiteralClass: { o["k"] = "flt"; auto v = cast<FloatingLiteral>(e)->getValue(); llvm::SmallString<40> s; v.toString(s, 0, 0); o["v"] = std::string(s); T(); break; }
        case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue(); T(); break;
        case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "null"; break;
        case Stmt::StringLiteralClass: { o["k"] = "str"; auto *sl = cast<StringLiteral>(e); o["v"] = sl->isOrdinary() || sl->isUTF8() ? llvm::json::fixUTF8(sl->getString()) : std::string("?"); break; }
        case Stmt::PredefinedExprClass: o["k"] = "str"; o["v"] = "__func__"; break;
        case Stmt::DeclRefExprClass: {
            auto *d = cast<DeclRefExpr>(e)->getDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "int"; o["v"] = ec->getInitVal().getExtValue(); o["en"] = qname(ec); T(); break; }
            if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fref"; o["f"] = func(f); T(); break; }
            o["k"] = "ref"; o["d"] = did(d); o["n"] = d->getNameAsString(); T();
            if (auto *v = dyn_cast<VarDecl>(d)) {
                if (isa<ParmVarDecl>(v)) o["dk"] = "parm"; else if (v->hasGlobalStorage()) { o["dk"] = "global"; o["q"] = qname(v); } else o["dk"] = "var";
            } else o["dk"] = "other";
            break; }
        case Stmt::MemberExprClass: {
            auto *m = cast<MemberExpr>(e); auto *d = m->getMemberDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { o["k"] = "int"; o["v"] = ec->getInitVal().getExtValue(); T(); break; }
            if (auto *v = dyn_cast<VarDecl>(d)) { o["k"] = "ref"; o["d"] = did(v); o["n"] = v->getNameAsString(); o["dk"] = "global"; o["q"] = qname(v); T(); break; }
            if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "mfref"; o["f"] = func(f); o["b"] = expr(m->getBase()); T(); break; }
            o["k"] = "mem"; o["b"] = expr(m->getBase()); o["n"] = d->getNameAsString(); o["d"] = did(d); if (m->isArrow()) o["ar"] = true; T(); break; }
        case Stmt::CXXThisExprClass: o["k"] = "this"; T(); break;
        case Stmt::CXXMemberCallExprClass: {
            auto *c = cast<CXXMemberCallExpr>(e);
            if (auto *md = c->getMethodDecl()) {
                o["k"] = "mcall"; o["f"] = func(md); auto *io = c->getImplicitObjectArgument(); o["o"] = expr(io);
                if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
                    if (me->isArrow()) o["ar"] = true;
                    if (md->isVirtual() && !me->hasQualifier()) o["virt"] = true;
                } 
            } else { o["k"] = "callx"; o["c"] = expr(c->getCallee()); }
            o["a"] = args(c->arg_begin(), c->arg_end()); T(); break; }
        case Stmt::CXXOperatorCallExprClass: {
            auto *c = cast<CXXOperatorCallExpr>(e);
            if (auto *fd = c->getDirectCallee()) {
                o["k"] = "ocall"; o["f"] = func(fd); o["op"] = getOperatorSpelling(c->getOperator());
                o["a"] = args(c->arg_begin(), c->arg_end()); if (isa<CXXMethodDecl>(fd)) o["m"] = true;
            } else { o["k"] = "callx"; o["c"] = expr(c->getCallee()); o["a"] = args(c->arg_begin(), c->arg_end()); }
            T(); break; }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            auto *c = cast<CallExpr>(e);
            if (auto *fd = c->getDirectCallee()) { o["k"] = "call"; o["f"] = func(fd); }
            else { o["k"] = "callx"; o["c"] = expr(c->getCallee()); }
            o["a"] = args(c->arg_begin(), c->arg_end()); T(); break; }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            auto *c = cast<CXXConstructExpr>(e); o["k"] = "ctor"; o["f"] = func(c->getConstructor());
            o["a"] = args(c->arg_begin(), c->arg_end()); if (c->isElidable()) o["elide"] = true; if (c->isListInitialization()) o["list"] = true;
            if (c->isStdInitListInitialization()) o["il"] = true; if (c->requiresZeroInitialization()) o["zero"] = true; T(); break; }
        case Stmt::CXXInheritedCtorInitExprClass: { o["k"] = "inhctor"; o["f"] = func(cast<CXXInheritedCtorInitExpr>(e)->getConstructor()); T(); break; }
        case Stmt::CXXStdInitializerListExprClass: o["k"] = "stdil"; o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); T(); break;
        case Stmt::InitListExprClass: {
            auto *x = cast<InitListExpr>(e); if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
            o["k"] = "ilist"; json::Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["a"] = std::move(a);
            if (x->getArrayFiller()) o["fill"] = expr(x->getArrayFiller());
            if (auto *fd = x->getInitializedFieldInUnion()) o["uf"] = fd->getNameAsString();
            T(); break; }
        case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "zeroinit"; T(); break;
        case Stmt::LambdaExprClass: {
            auto *x = cast<LambdaExpr>(e); o["k"] = "lambda"; o["f"] = func(x->getCallOperator()); o["rec"] = rec(x->getLambdaClass());
            json::Array a; auto it = x->capture_init_begin();
            auto fit = x->getLambdaClass()->field_begin();
            for (auto c = x->capture_begin(); c != x->capture_end(); ++c, ++it) {
                json::Object co;
                if (c->capturesThis()) co["this"] = true;
                else if (c->capturesVariable()) { co["d"] = did(c->getCapturedVar()); co["n"] = c->getCapturedVar()->getNameAsString(); co["ref"] = c->getCaptureKind() == LCK_ByRef; }
                if (*it) co["e"] = expr(*it);
                a.push_back(std::move(co));
            }
            o["caps"] = std::move(a); T(); break; }
        case Stmt::UnaryOperatorClass: { auto *x = cast<UnaryOperator>(e); o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()); if (x->isPostfix()) o["post"] = true; o["e"] = expr(x->getSubExpr()); T(); break; }
        case Stmt::CompoundAssignOperatorClass:
        case Stmt::BinaryOperatorClass: { auto *x = cast<BinaryOperator>(e); o["k"] = x->isAssignmentOp() ? "asg" : "bin"; o["op"] = x->getOpcodeStr(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); T(); break; }
        case Stmt::ConditionalOperatorClass: { auto *x = cast<ConditionalOperator>(e); o["k"] = "cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); T(); break; }
        case Stmt::ArraySubscriptExprClass: { auto *x = cast<ArraySubscriptExpr>(e); o["k"] = "sub"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); T(); break; }
        case Stmt::CXXNewExprClass: { auto *x = cast<CXXNewExpr>(e); o["k"] = "new"; o["at"] = ty(x->getAllocatedType()); if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize()); if (x->hasInitializer()) o["init"] = expr(x->getInitializer()); if (x->getNumPlacementArgs()) { json::Array a; for (auto *p : x->placement_arguments()) a.push_back(expr(p)); o["place"] = std::move(a);} T(); break; }
        case Stmt::CXXDeleteExprClass: { auto *x = cast<CXXDeleteExpr>(e); o["k"] = "del"; o["e"] = expr(x->getArgument()); if (x->isArrayForm()) o["arr"] = true; o["dt"] = x->getDestroyedType().isNull() ? 0 : ty(x->getDestroyedType()); T(); break; }
        case Stmt::CXXThrowExprClass: { auto *x = cast<CXXThrowExpr>(e); o["k"] = "throw"; if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); break; }
        case Stmt::CXXTypeidExprClass: o["k"] = "opaque"; o["c"] = "typeid"; T(); break;
        case Stmt::ImplicitCastExprClass: {
            auto *x = cast<ImplicitCastExpr>(e);
            switch (x->getCastKind()) {
            case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
            case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_ToVoid: case CK_BitCast:
                if (x->getCastKind() == CK_LValueToRValue || x->getCastKind() == CK_NoOp || x->getCastKind() == CK_FunctionToPointerDecay || x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion || x->getCastKind() == CK_BuiltinFnToFnPtr)
                    return expr(x->getSubExpr());
                [[fallthrough]];
            default:
                o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["impl"] = true; o["e"] = expr(x->getSubExpr()); o["ft"] = ty(x->getSubExpr()->getType()); T();
            }
            break; }
        case Stmt::CXXStaticCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::BuiltinBitCastExprClass: {
            auto *x = cast<CastExpr>(e);
            if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) return expr(x->getSubExpr());
            o["k"] = "cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["ft"] = ty(x->getSubExpr()->getType()); T();
            if (isa<CXXReinterpretCastExpr>(e)) o["how"] = "reinterpret"; else if (isa<CXXStaticCastExpr>(e)) o["how"] = "static"; else if (isa<CXXDynamicCastExpr>(e)) o["how"] = "dynamic"; else if (isa<CXXConstCastExpr>(e)) o["how"] = "const"; else o["how"] = "c";
            break; }
        case Stmt::ArrayInitLoopExprClass: o["k"] = "arrcopy"; o["e"] = expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()); T(); break;
        case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
        case Stmt::UnaryExprOrTypeTraitExprClass: o["k"] = "opaque"; o["c"] = "sizeof"; T(); break;
        case Stmt::StmtExprClass: o["k"] = "stmtexpr"; o["b"] = stmt(cast<StmtExpr>(e)->getSubStmt()); T(); break;
        default:
            o["k"] = "unk"; o["c"] = e->getStmtClassName(); if (!e->getType().isNull()) T();
            { json::Array a; for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce)); o["a"] = std::move(a); }
        }
        return json::Value(std::move(o));
    }
    void drain(){
        while (!work.empty() || !recwork.empty()) {
            while (!work.empty()) { auto *f = work.front(); work.pop_front(); dumpFunc(f); }
            if (!recwork.empty()) { auto *r = recwork.front(); recwork.pop_front(); dumpRec(r); }
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D;
    Visitor(Dumper &D): D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *f){
        if (!f->isDependentContext() && f->hasBody() && D.inRoots(f->getLocation())) D.func(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r){
        if (!r->isDependentContext() && r->isThisDeclarationADefinition() && D.inRoots(r->getLocation())) D.rec(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e){
        if (!D.inRoots(e->getLocation())) return true;
        json::Object o; o["R"] = "enum"; o["q"] = D.qname(e); o["file"] = D.fileOf(e->getLocation()); o["line"] = D.lineOf(e->getLocation());
        json::Array a; for (auto *c : e->enumerators()) { json::Object x; x["n"] = c->getNameAsString(); x["v"] = c->getInitVal().getExtValue(); a.push_back(std::move(x)); }
        o["vals"] = std::move(a); D.line(std::move(o)); return true;
    }
    bool VisitVarDecl(VarDecl *v){
        if (v->hasGlobalStorage() && !v->isStaticLocal() && !isa<ParmVarDecl>(v) && D.inRoots(v->getLocation()) && !v->getDeclContext()->isDependentContext() && !v->isTemplated()) {
            json::Object o; o["R"] = "global"; o["d"] = D.did(v); o["q"] = D.qname(v); o["t"] = D.ty(v->getType()); o["file"] = D.fileOf(v->getLocation()); o["line"] = D.lineOf(v->getLocation());
            if (v->getType().isConstQualified()) o["const"] = true;
            if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = D.expr(v->getInit());
            D.line(std::move(o));
        }
        return true;
    }
};
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        std::error_code EC; llvm::raw_fd_ostream OS(outPath, EC);
        if (EC) { llvm::errs() << "cannot write " << outPath << "\n"; numErrors++; return; }
        Dumper D(C, OS); Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        D.drain();
        if (C.getDiagnostics().hasErrorOccurred()) numErrors++;
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, char **argv){
    // hx OUT SOURCE root[,root...] -- compiler args
    if (argc < 5) { llvm::errs() << "usage: hx OUT SOURCE ROOTS -- args\n"; return 2; }
    outPath = argv[1]; std::string src = argv[2], r = argv[3];
    size_t p = 0; while (p != std::string::npos) { size_t q = r.find(',', p); roots.push_back(r.substr(p, q == std::string::npos ? q : q - p)); p = q == std::string::npos ? q : q + 1; }
    std::vector<std::string> args; for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {src});
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return (rc || numErrors) ? 1 : 0;
}
