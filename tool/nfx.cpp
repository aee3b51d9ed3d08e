// nfx: exports the type-checked AST of one translation unit as compact JSON.
// Every function body whose definition lies under one of the --root folders is exported,
// template instantiations, lambdas and used implicit members included, with callees resolved.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>

using namespace clang;
using std::string;

static std::vector<string> gRoots;
static string gOut;

static string esc(llvm::StringRef s)
{
    string o = "\"";
    for (unsigned char c : s)
    {
        switch (c)
        {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else o += (char)c;
        }
    }
    return o + "\"";
}

struct Obj
{
    string s = "{";
    bool first = true;
    Obj& raw(const char* k, const string& v)
    {
        if (!first) s += ",";
        first = false;
        s += "\""; s += k; s += "\":"; s += v;
        return *this;
    }
    Obj& str(const char* k, llvm::StringRef v) { return raw(k, esc(v)); }
    Obj& num(const char* k, long long v) { return raw(k, std::to_string(v)); }
    Obj& flag(const char* k, bool v) { if (v) raw(k, "1"); return *this; }
    string done() { return s + "}"; }
};

static string arr(const std::vector<string>& v)
{
    string o = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += v[i]; }
    return o + "]";
}

class Exporter
{
public:
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const void*, int> typeIds;
    std::vector<string> types;
    std::map<string, int> fileIds;
    std::vector<string> files;
    std::map<const Decl*, int> localIds;
    std::map<string, string> functions; // usr -> json
    std::map<string, string> records;
    std::map<string, string> globals;
    std::deque<const FunctionDecl*> todo;
    std::set<const FunctionDecl*> seen;
    std::set<const CXXRecordDecl*> seenRec;

    Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    bool inRoots(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        for (auto& r : gRoots) if (f.starts_with(r)) return true;
        return false;
    }

    int loc(SourceLocation l, int* fileOut = nullptr)
    {
        if (l.isInvalid()) { if (fileOut) *fileOut = -1; return 0; }
        l = SM.getExpansionLoc(l);
        if (fileOut)
        {
            string f = SM.getFilename(l).str();
            auto it = fileIds.find(f);
            if (it == fileIds.end()) { it = fileIds.emplace(f, (int)files.size()).first; files.push_back(f); }
            *fileOut = it->second;
        }
        return (int)SM.getExpansionLineNumber(l);
    }

    string usr(const Decl* d)
    {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(d, b)) return "local@" + std::to_string(localId(d));
        string r = b.str().str();
        // two lambdas of one function with the same signature have the same USR
        // and so have two specialisations for those lambdas
        for (const DeclContext* c = dyn_cast<DeclContext>(d) ? cast<DeclContext>(d) : d->getDeclContext(); c; c = c->getParent())
        {
            if (auto rec = dyn_cast<CXXRecordDecl>(c))
            {
                if (rec->isLambda()) r += "@" + place(rec->getLocation());
                if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rec)) closures(sp->getTemplateArgs(), r, 0);
            }
            if (auto f = dyn_cast<FunctionDecl>(c))
                if (auto args = f->getTemplateSpecializationArgs()) closures(*args, r, 0);
        }
        return r;
    }

    void closures(const TemplateArgumentList& args, string& r, int depth)
    {
        for (auto& a : args.asArray()) closures(a, r, depth);
    }

    void closures(const TemplateArgument& a, string& r, int depth)
    {
        if (depth > 4) return;
        if (a.getKind() == TemplateArgument::Pack)
        {
            for (auto& x : a.pack_elements()) closures(x, r, depth);
            return;
        }
        if (a.getKind() != TemplateArgument::Type) return;
        QualType t = a.getAsType();
        while (!t.isNull() && (t->isReferenceType() || t->isPointerType())) t = t->getPointeeType();
        auto rec = t.isNull() ? nullptr : t->getAsCXXRecordDecl();
        if (!rec) return;
        if (rec->isLambda()) r += "<" + place(rec->getLocation()) + ">";
        if (auto sp = dyn_cast<ClassTemplateSpecializationDecl>(rec)) closures(sp->getTemplateArgs(), r, depth + 1);
    }

    string place(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        return std::to_string(SM.getExpansionLineNumber(l)) + ":" + std::to_string(SM.getExpansionColumnNumber(l));
    }

    int localId(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = localIds.find(d);
        if (it == localIds.end()) it = localIds.emplace(d, (int)localIds.size() + 1).first;
        return it->second;
    }

    string recName(const CXXRecordDecl* r)
    {
        if (!r) return "";
        if (r->isLambda()) return "lambda@" + place(r->getLocation());
        QualType t = C.getRecordType(r);
        return t.getCanonicalType().getAsString(PP);
    }

    string tmplArg(const TemplateArgument& a)
    {
        switch (a.getKind())
        {
        case TemplateArgument::Type: return "{\"t\":" + std::to_string(type(a.getAsType())) + "}";
        case TemplateArgument::Integral:
        {
            llvm::SmallString<16> s; a.getAsIntegral().toString(s, 10);
            return "{\"i\":" + esc(s) + "}";
        }
        case TemplateArgument::Pack:
        {
            std::vector<string> v;
            for (auto& p : a.pack_elements()) v.push_back(tmplArg(p));
            return "{\"p\":" + arr(v) + "}";
        }
        default:
        {
            string s; llvm::raw_string_ostream os(s); a.print(PP, os, true);
            return "{\"x\":" + esc(os.str()) + "}";
        }
        }
    }

    int type(QualType q)
    {
        q = q.getCanonicalType();
        void* key = q.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = (int)types.size();
        typeIds[key] = id;
        types.push_back("");
        Obj o;
        o.str("s", q.getAsString(PP));
        o.flag("const", q.isConstQualified());
        o.flag("vol", q.isVolatileQualified());
        QualType u = q.getUnqualifiedType();
        if (u->isLValueReferenceType()) { o.str("k", "lref"); o.num("to", type(u->getPointeeType())); }
        else if (u->isRValueReferenceType()) { o.str("k", "rref"); o.num("to", type(u->getPointeeType())); }
        else if (u->isPointerType()) { o.str("k", "ptr"); o.num("to", type(u->getPointeeType())); }
        else if (u->isBooleanType()) o.str("k", "bool");
        else if (auto e = u->getAs<EnumType>()) { o.str("k", "enum"); o.str("rec", e->getDecl()->getQualifiedNameAsString()); }
        else if (u->isIntegerType())
        {
            o.str("k", "int");
            o.num("bits", (long long)C.getTypeSize(u));
            o.flag("uns", u->isUnsignedIntegerType());
        }
        else if (u->isFloatingType()) { o.str("k", "float"); o.num("bits", (long long)C.getTypeSize(u)); }
        else if (u->isVoidType()) o.str("k", "void");
        else if (auto r = u->getAsCXXRecordDecl())
        {
            o.str("k", "rec");
            o.str("rec", recName(r));
            o.str("tn", r->getQualifiedNameAsString());
            o.flag("lambda", r->isLambda());
            o.str("usr", usr(r));
            if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(r))
            {
                std::vector<string> v;
                for (auto& a : s->getTemplateArgs().asArray()) v.push_back(tmplArg(a));
                o.raw("ta", arr(v));
            }
            needRecord(r);
        }
        else if (u->isFunctionType()) o.str("k", "fn");
        else if (u->isArrayType())
        {
            o.str("k", "arr");
            o.num("to", type(u->getAsArrayTypeUnsafe()->getElementType()));
            if (auto ca = dyn_cast<ConstantArrayType>(u->getAsArrayTypeUnsafe()))
                o.num("n", (long long)ca->getSize().getZExtValue());
        }
        else if (u->isMemberPointerType()) o.str("k", "memptr");
        else o.str("k", "other");
        types[id] = o.done();
        return id;
    }

    std::deque<const CXXRecordDecl*> recTodo;
    void needRecord(const CXXRecordDecl* r)
    {
        r = r->getDefinition();
        if (!r || r->isDependentContext()) return;
        if (!seenRec.insert(r).second) return;
        recTodo.push_back(r);
    }

    void drainRecords()
    {
        while (!recTodo.empty())
        {
            auto r = recTodo.front();
            recTodo.pop_front();
            emitRecord(r);
        }
    }

    void emitRecord(const CXXRecordDecl* r)
    {
        bool mine = inRoots(r->getLocation());
        if (!mine && !r->isLambda())
        {
            // of foreign records only the bases are needed (exception hierarchy)
            Obj o;
            o.str("n", recName(r));
            o.str("tn", r->getQualifiedNameAsString());
            std::vector<string> bs;
            for (auto& b : r->bases())
                if (auto br = b.getType()->getAsCXXRecordDecl()) { bs.push_back(esc(recName(br))); needRecord(br); }
            o.raw("bases", arr(bs));
            o.num("foreign", 1);
            records.emplace(recName(r), o.done());
            return;
        }
        Obj o;
        int f;
        o.str("n", recName(r));
        o.str("tn", r->getQualifiedNameAsString());
        o.str("usr", usr(r));
        o.num("l", loc(r->getLocation(), &f));
        o.num("file", f);
        o.flag("lambda", r->isLambda());
        o.flag("abstract", r->isAbstract());
        o.flag("polymorphic", r->isPolymorphic());
        std::vector<string> bs, fs, ms;
        for (auto& b : r->bases())
            if (auto br = b.getType()->getAsCXXRecordDecl()) { bs.push_back(esc(recName(br))); needRecord(br); }
        for (auto fd : r->fields())
        {
            Obj q;
            q.str("n", fd->getName());
            q.num("t", type(fd->getType()));
            q.flag("mut", fd->isMutable());
            q.num("acc", fd->getAccess());
            if (fd->hasInClassInitializer() && fd->getInClassInitializer()) q.raw("init", expr(fd->getInClassInitializer()));
            fs.push_back(q.done());
        }
        for (auto d : r->decls())
        {
            if (auto m = dyn_cast<CXXMethodDecl>(d)) ms.push_back(method(m));
            else if (auto v = dyn_cast<VarDecl>(d)) global(v);
            else if (auto ft = dyn_cast<FunctionTemplateDecl>(d))
            {
                if (auto tm = dyn_cast<CXXMethodDecl>(ft->getTemplatedDecl()))
                {
                    Obj q;
                    q.str("n", tm->getNameAsString());
                    q.num("tmpl", 1);
                    q.num("acc", d->getAccess());
                    ms.push_back(q.done());
                }
                for (auto s : ft->specializations()) enqueue(s);
            }
        }
        o.raw("bases", arr(bs)).raw("fields", arr(fs)).raw("methods", arr(ms));
        o.num("dtor_virtual", r->getDestructor() && r->getDestructor()->isVirtual());
        o.num("has_copy_ctor_implicit", r->needsImplicitCopyConstructor() ? 1 : 0);
        o.num("copy_ctor_deleted", r->defaultedCopyConstructorIsDeleted() ? 1 : 0);
        o.num("user_copy_ctor", r->hasUserDeclaredCopyConstructor() ? 1 : 0);
        o.num("user_move_ctor", r->hasUserDeclaredMoveConstructor() ? 1 : 0);
        o.num("user_copy_assign", r->hasUserDeclaredCopyAssignment() ? 1 : 0);
        o.num("user_move_assign", r->hasUserDeclaredMoveAssignment() ? 1 : 0);
        o.num("user_dtor", r->hasUserDeclaredDestructor() ? 1 : 0);
        records[recName(r)] = o.done();
    }

    string method(const CXXMethodDecl* m)
    {
        Obj q;
        q.str("n", m->getNameAsString());
        q.str("u", usr(m));
        q.num("acc", m->getAccess());
        q.flag("const", m->isConst());
        q.flag("static", m->isStatic());
        q.flag("virt", m->isVirtual());
        q.flag("pure", m->isPureVirtual());
        q.flag("del", m->isDeleted());
        q.flag("dft", m->isDefaulted());
        q.flag("implicit", m->isImplicit());
        q.flag("refq_l", m->getRefQualifier() == RQ_LValue);
        q.flag("refq_r", m->getRefQualifier() == RQ_RValue);
        q.num("ret", type(m->getReturnType()));
        std::vector<string> ps, ov;
        for (auto p : m->parameters()) ps.push_back(std::to_string(type(p->getType())));
        q.raw("pt", arr(ps));
        for (auto b : m->overridden_methods()) ov.push_back(esc(usr(b)));
        if (!ov.empty()) q.raw("ov", arr(ov));
        if (auto c = dyn_cast<CXXConstructorDecl>(m))
        {
            q.num("ctor", c->isCopyConstructor() ? 2 : c->isMoveConstructor() ? 3 : c->isDefaultConstructor() ? 4 : 1);
            q.flag("explicit", c->isExplicit());
        }
        if (m->isCopyAssignmentOperator()) q.num("casg", 1);
        if (m->isMoveAssignmentOperator()) q.num("masg", 1);
        if (isa<CXXDestructorDecl>(m)) q.num("dtor", 1);
        return q.done();
    }

    void global(const VarDecl* v)
    {
        if (v->getDeclContext()->isDependentContext()) return;
        if (!inRoots(v->getLocation())) return;
        string u = usr(v);
        Obj q;
        q.str("n", v->getQualifiedNameAsString());
        q.num("t", type(v->getType()));
        if (auto r = dyn_cast<CXXRecordDecl>(v->getDeclContext())) q.str("rec", recName(r));
        if (v->getTSCSpec() != TSCS_unspecified) q.num("tls", 1);
        if (v->getFormalLinkage() == Linkage::Internal) q.num("internal", 1);
        if (v->isInline()) q.num("inline", 1);
        const Expr* init = v->getAnyInitializer();
        if (init && !init->isValueDependent() && !init->isInstantiationDependent()) q.raw("init", expr(init));
        int f;
        q.num("l", loc(v->getLocation(), &f));
        q.num("file", f);
        if (init || !globals.count(u)) globals[u] = q.done();
    }

    void enqueue(const FunctionDecl* f)
    {
        const FunctionDecl* d = nullptr;
        if (!f->hasBody(d)) d = nullptr;
        if (!d)
        {
            // implicit members get their body on definition
            if (f->isDefaulted() || f->isImplicit()) d = f->getDefinition() ? f->getDefinition() : nullptr;
            if (!d) return;
        }
        if (d->isDependentContext()) return;
        if (!inRoots(d->getLocation())) return;
        if (!seen.insert(d->getCanonicalDecl()).second) return;
        todo.push_back(d);
    }

    string callee(const FunctionDecl* f)
    {
        Obj o;
        enqueue(f);
        o.str("u", usr(f));
        o.str("n", f->getNameAsString());
        o.str("q", f->getQualifiedNameAsString());
        if (auto m = dyn_cast<CXXMethodDecl>(f))
        {
            o.str("c", m->getParent()->getQualifiedNameAsString());
            o.str("cr", recName(m->getParent()));
            o.flag("static", m->isStatic());
            o.flag("const", m->isConst());
            o.flag("virt", m->isVirtual());
            o.flag("implicit", m->isImplicit() || m->isDefaulted());
            needRecord(m->getParent());
            if (auto c = dyn_cast<CXXConstructorDecl>(m))
                o.num("ctor", c->isCopyConstructor() ? 2 : c->isMoveConstructor() ? 3 : c->isDefaultConstructor() ? 4 : 1);
        }
        if (auto ta = f->getTemplateSpecializationArgs())
        {
            std::vector<string> v;
            for (auto& a : ta->asArray()) v.push_back(tmplArg(a));
            o.raw("ta", arr(v));
        }
        std::vector<string> ps;
        for (auto p : f->parameters()) ps.push_back(std::to_string(type(p->getType())));
        o.raw("pt", arr(ps));
        o.num("ret", type(f->getReturnType()));
        o.flag("noret", f->isNoReturn());
        o.flag("variadic", f->isVariadic());
        o.flag("mine", inRoots(f->getLocation()));
        if (f->isOverloadedOperator()) o.str("op", getOperatorSpelling(f->getOverloadedOperator()));
        return o.done();
    }

    // ---------------------------------------------------------------- statements
    string block(const std::vector<string>& v) { return "{\"k\":\"block\",\"b\":" + arr(v) + "}"; }

    string var(const VarDecl* v)
    {
        Obj o;
        o.num("id", localId(v));
        o.str("n", v->getNameAsString());
        o.num("t", type(v->getType()));
        o.num("l", loc(v->getLocation()));
        o.flag("static", v->isStaticLocal());
        if (v->isStaticLocal()) o.str("gu", usr(v));
        if (v->isStaticLocal() && v->getTSCSpec() != TSCS_unspecified) o.num("tls", 1);
        if (v->hasInit() && v->getInit()) o.raw("init", expr(v->getInit()));
        if (auto d = dyn_cast<DecompositionDecl>(v))
        {
            std::vector<string> b;
            int i = 0;
            for (auto bd : d->bindings())
            {
                Obj q;
                q.num("id", localId(bd));
                q.str("n", bd->getNameAsString());
                q.num("i", i++);
                q.num("t", type(bd->getType()));
                if (auto hv = bd->getHoldingVar()) { q.num("hold", localId(hv)); }
                if (bd->getBinding())
                {
                    if (auto me = dyn_cast<MemberExpr>(bd->getBinding()->IgnoreImplicit()))
                        q.str("fld", me->getMemberDecl()->getName());
                }
                b.push_back(q.done());
            }
            o.raw("bind", arr(b));
        }
        return o.done();
    }

    string stmt(const Stmt* s)
    {
        if (!s) return "null";
        if (auto e = dyn_cast<Expr>(s)) return expr(e);
        Obj o;
        int L = loc(s->getBeginLoc());
        switch (s->getStmtClass())
        {
        case Stmt::CompoundStmtClass:
        {
            std::vector<string> v;
            for (auto c : cast<CompoundStmt>(s)->body()) v.push_back(stmt(c));
            return block(v);
        }
        case Stmt::DeclStmtClass:
        {
            std::vector<string> v;
            for (auto d : cast<DeclStmt>(s)->decls())
                if (auto vd = dyn_cast<VarDecl>(d)) v.push_back(var(vd));
            return o.str("k", "decl").num("l", L).raw("v", arr(v)).done();
        }
        case Stmt::IfStmtClass:
        {
            auto i = cast<IfStmt>(s);
            o.str("k", "if").num("l", L);
            if (i->getInit()) o.raw("init", stmt(i->getInit()));
            if (i->getConditionVariable()) o.raw("cv", var(i->getConditionVariable()));
            o.flag("cexpr", i->isConstexpr());
            o.raw("c", expr(i->getCond()));
            if (i->isConstexpr())
            {
                Expr::EvalResult r;
                if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsRValue(r, C) && r.Val.isInt())
                    o.num("cval", r.Val.getInt() != 0);
            }
            o.raw("th", stmt(i->getThen()));
            if (i->getElse()) o.raw("el", stmt(i->getElse()));
            return o.done();
        }
        case Stmt::WhileStmtClass:
        {
            auto w = cast<WhileStmt>(s);
            o.str("k", "while").num("l", L);
            if (w->getConditionVariable()) o.raw("cv", var(w->getConditionVariable()));
            return o.raw("c", expr(w->getCond())).raw("b", stmt(w->getBody())).done();
        }
        case Stmt::DoStmtClass:
        {
            auto w = cast<DoStmt>(s);
            return o.str("k", "do").num("l", L).raw("c", expr(w->getCond())).raw("b", stmt(w->getBody())).done();
        }
        case Stmt::ForStmtClass:
        {
            auto f = cast<ForStmt>(s);
            o.str("k", "for").num("l", L);
            if (f->getInit()) o.raw("init", stmt(f->getInit()));
            if (f->getCond()) o.raw("c", expr(f->getCond()));
            if (f->getInc()) o.raw("inc", expr(f->getInc()));
            return o.raw("b", stmt(f->getBody())).done();
        }
        case Stmt::CXXForRangeStmtClass:
        {
            auto f = cast<CXXForRangeStmt>(s);
            o.str("k", "rfor").num("l", L);
            if (f->getInit()) o.raw("init", stmt(f->getInit()));
            o.raw("range", expr(f->getRangeInit()));
            o.raw("v", var(f->getLoopVariable()));
            return o.raw("b", stmt(f->getBody())).done();
        }
        case Stmt::SwitchStmtClass:
        {
            auto w = cast<SwitchStmt>(s);
            o.str("k", "switch").num("l", L);
            if (w->getInit()) o.raw("init", stmt(w->getInit()));
            return o.raw("c", expr(w->getCond())).raw("b", stmt(w->getBody())).done();
        }
        case Stmt::CaseStmtClass:
        {
            auto c = cast<CaseStmt>(s);
            return o.str("k", "case").num("l", L).raw("v", expr(c->getLHS())).raw("s", stmt(c->getSubStmt())).done();
        }
        case Stmt::DefaultStmtClass:
            return o.str("k", "default").num("l", L).raw("s", stmt(cast<DefaultStmt>(s)->getSubStmt())).done();
        case Stmt::BreakStmtClass: return o.str("k", "break").num("l", L).done();
        case Stmt::ContinueStmtClass: return o.str("k", "continue").num("l", L).done();
        case Stmt::NullStmtClass: return o.str("k", "null").done();
        case Stmt::ReturnStmtClass:
        {
            o.str("k", "return").num("l", L);
            if (auto e = cast<ReturnStmt>(s)->getRetValue()) o.raw("e", expr(e));
            return o.done();
        }
        case Stmt::CXXTryStmtClass:
        {
            auto t = cast<CXXTryStmt>(s);
            o.str("k", "try").num("l", L).raw("b", stmt(t->getTryBlock()));
            std::vector<string> h;
            for (unsigned i = 0; i < t->getNumHandlers(); i++)
            {
                auto c = t->getHandler(i);
                Obj q;
                q.num("l", loc(c->getBeginLoc()));
                if (c->getExceptionDecl()) q.raw("v", var(c->getExceptionDecl()));
                q.raw("b", stmt(c->getHandlerBlock()));
                h.push_back(q.done());
            }
            return o.raw("h", arr(h)).done();
        }
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::LabelStmtClass: return o.str("k", "unsup").str("c", "label").num("l", L).done();
        default: return o.str("k", "unsup").str("c", s->getStmtClassName()).num("l", L).done();
        }
    }

    // ---------------------------------------------------------------- expressions
    string args(llvm::ArrayRef<const Expr*> a)
    {
        std::vector<string> v;
        for (auto e : a) v.push_back(expr(e));
        return arr(v);
    }
    template<class It>
    string argsIt(It b, It e)
    {
        std::vector<string> v;
        for (; b != e; ++b) v.push_back(expr(*b));
        return arr(v);
    }

    string unsup(const Stmt* e)
    {
        return Obj().str("k", "unsup").str("c", e->getStmtClassName()).num("l", loc(e->getBeginLoc())).done();
    }

    string expr(const Expr* e)
    {
        if (!e) return "null";
        Obj o;
        int L = loc(e->getExprLoc());
        switch (e->getStmtClass())
        {
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
        case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
        case Stmt::MaterializeTemporaryExprClass:
            return expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
        case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
        case Stmt::CXXStdInitializerListExprClass:
            return o.str("k", "stdilist").num("l", L).num("t", type(e->getType()))
                .raw("e", expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr())).done();
        case Stmt::CXXRewrittenBinaryOperatorClass:
            return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
        case Stmt::IntegerLiteralClass:
        {
            llvm::SmallString<16> s;
            cast<IntegerLiteral>(e)->getValue().toString(s, 10, e->getType()->isSignedIntegerType());
            return o.str("k", "int").raw("v", esc(s)).num("t", type(e->getType())).done();
        }
        case Stmt::FloatingLiteralClass:
        {
            llvm::SmallString<32> s;
            cast<FloatingLiteral>(e)->getValue().toString(s);
            return o.str("k", "float").str("v", s).num("t", type(e->getType())).done();
        }
        case Stmt::CXXBoolLiteralExprClass:
            return o.str("k", "bool").num("v", cast<CXXBoolLiteralExpr>(e)->getValue()).done();
        case Stmt::StringLiteralClass:
        {
            auto sl = cast<StringLiteral>(e);
            return o.str("k", "str").str("v", sl->isOrdinary() || sl->isUTF8() ? sl->getString() : "?").num("l", L).done();
        }
        case Stmt::PredefinedExprClass:
            return o.str("k", "str").str("v", "__func__").num("l", L).done();
        case Stmt::CharacterLiteralClass:
            return o.str("k", "int").raw("v", esc(std::to_string(cast<CharacterLiteral>(e)->getValue()))).num("t", type(e->getType())).done();
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass: return o.str("k", "nullptr").done();
        case Stmt::CXXThisExprClass: return o.str("k", "this").num("t", type(e->getType())).done();
        case Stmt::DeclRefExprClass:
        {
            auto d = cast<DeclRefExpr>(e)->getDecl();
            o.num("l", L).num("t", type(e->getType()));
            if (auto ec = dyn_cast<EnumConstantDecl>(d))
            {
                llvm::SmallString<16> s;
                ec->getInitVal().toString(s, 10);
                return o.str("k", "enumc").str("n", ec->getQualifiedNameAsString()).str("v", s).done();
            }
            if (auto f = dyn_cast<FunctionDecl>(d)) return o.str("k", "fref").raw("f", callee(f)).done();
            o.str("k", "ref").str("n", d->getNameAsString());
            if (auto b = dyn_cast<BindingDecl>(d)) return o.str("dk", "bind").num("d", localId(b)).done();
            if (auto v = dyn_cast<VarDecl>(d))
            {
                if (isa<ParmVarDecl>(v)) return o.str("dk", "param").num("d", localId(v)).done();
                if (v->isLocalVarDecl() && !v->isStaticLocal()) return o.str("dk", "var").num("d", localId(v)).done();
                if (v->isStaticLocal()) return o.str("dk", "static").num("d", localId(v)).str("gu", usr(v)).done();
                if (v->hasGlobalStorage())
                {
                    // constant-fold constexpr globals
                    global(v);
                    Expr::EvalResult r;
                    if (v->isConstexpr() && !e->isValueDependent() && e->EvaluateAsRValue(r, C))
                    {
                        if (r.Val.isInt()) { llvm::SmallString<16> s; r.Val.getInt().toString(s, 10); o.str("cv", s); }
                    }
                    return o.str("dk", "global").str("gu", usr(v)).str("q", v->getQualifiedNameAsString()).done();
                }
                return o.str("dk", "var").num("d", localId(v)).done();
            }
            return o.str("dk", "other").done();
        }
        case Stmt::MemberExprClass:
        {
            auto m = cast<MemberExpr>(e);
            auto d = m->getMemberDecl();
            o.num("l", L).num("t", type(e->getType()));
            if (auto v = dyn_cast<VarDecl>(d))
            {
                global(v);
                return o.str("k", "ref").str("n", d->getNameAsString()).str("dk", "global").str("gu", usr(v)).str("q", v->getQualifiedNameAsString()).done();
            }
            if (auto f = dyn_cast<FunctionDecl>(d))
                return o.str("k", "fref").raw("f", callee(f)).raw("b", expr(m->getBase())).done();
            if (auto ec = dyn_cast<EnumConstantDecl>(d))
            {
                llvm::SmallString<16> s;
                ec->getInitVal().toString(s, 10);
                return o.str("k", "enumc").str("n", ec->getQualifiedNameAsString()).str("v", s).done();
            }
            o.str("k", "mem").str("n", d->getNameAsString());
            if (auto fd = dyn_cast<FieldDecl>(d))
                if (auto rr = dyn_cast<CXXRecordDecl>(fd->getParent())) o.str("c", rr->getQualifiedNameAsString());
            o.flag("arrow", m->isArrow());
            return o.raw("b", expr(m->getBase())).done();
        }
        case Stmt::CXXMemberCallExprClass:
        {
            auto c = cast<CXXMemberCallExpr>(e);
            auto md = c->getMethodDecl();
            o.str("k", "call").num("l", L).num("t", type(e->getType()));
            if (!md)
                return o.raw("fe", expr(c->getCallee())).raw("a", argsIt(c->arg_begin(), c->arg_end())).done();
            o.raw("f", callee(md));
            auto me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
            if (me)
            {
                o.raw("o", expr(me->getBase()));
                o.flag("arrow", me->isArrow());
                o.flag("vcall", md->isVirtual() && !me->hasQualifier() && !md->hasAttr<FinalAttr>());
            }
            o.flag("glv", e->isGLValue());
            return o.raw("a", argsIt(c->arg_begin(), c->arg_end())).done();
        }
        case Stmt::CXXOperatorCallExprClass:
        {
            auto c = cast<CXXOperatorCallExpr>(e);
            auto f = c->getDirectCallee();
            o.str("k", "call").num("l", L).num("t", type(e->getType()));
            o.str("op", getOperatorSpelling(c->getOperator()));
            if (!f)
                return o.raw("fe", expr(c->getCallee())).raw("a", argsIt(c->arg_begin(), c->arg_end())).done();
            o.raw("f", callee(f));
            o.flag("glv", e->isGLValue());
            auto b = c->arg_begin();
            auto m = dyn_cast<CXXMethodDecl>(f);
            if (m && !m->isStatic()) { o.raw("o", expr(*b)); ++b; o.flag("vcall", m->isVirtual()); }
            else if (m && m->isStatic()) ++b;
            return o.raw("a", argsIt(b, c->arg_end())).done();
        }
        case Stmt::CallExprClass:
        {
            auto c = cast<CallExpr>(e);
            o.str("k", "call").num("l", L).num("t", type(e->getType()));
            o.flag("glv", e->isGLValue());
            if (auto f = c->getDirectCallee()) o.raw("f", callee(f));
            else o.raw("fe", expr(c->getCallee()));
            return o.raw("a", argsIt(c->arg_begin(), c->arg_end())).done();
        }
        case Stmt::UserDefinedLiteralClass:
        {
            auto c = cast<CallExpr>(e);
            o.str("k", "call").num("l", L).num("t", type(e->getType()));
            if (auto f = c->getDirectCallee()) o.raw("f", callee(f));
            return o.raw("a", argsIt(c->arg_begin(), c->arg_end())).done();
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass:
        {
            auto c = cast<CXXConstructExpr>(e);
            o.str("k", "ctor").num("l", L).num("t", type(e->getType()));
            o.raw("f", callee(c->getConstructor()));
            o.flag("elid", c->isElidable());
            o.flag("list", c->isListInitialization());
            return o.raw("a", argsIt(c->arg_begin(), c->arg_end())).done();
        }
        case Stmt::CXXInheritedCtorInitExprClass:
        {
            auto c = cast<CXXInheritedCtorInitExpr>(e);
            return o.str("k", "inhctor").num("l", L).num("t", type(e->getType())).raw("f", callee(c->getConstructor())).done();
        }
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXDynamicCastExprClass:
        case Stmt::ImplicitCastExprClass:
        case Stmt::BuiltinBitCastExprClass:
        {
            auto c = cast<CastExpr>(e);
            auto sub = c->getSubExpr();
            bool impl = isa<ImplicitCastExpr>(e);
            switch (c->getCastKind())
            {
            case CK_LValueToRValue:
            case CK_NoOp:
            case CK_FunctionToPointerDecay:
            case CK_ArrayToPointerDecay:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
            case CK_BuiltinFnToFnPtr:
            case CK_AtomicToNonAtomic:
            case CK_NonAtomicToAtomic:
                if (impl) return expr(sub);
                break;
            case CK_NullToPointer: return Obj().str("k", "nullptr").done();
            default: break;
            }
            o.str("k", "cast").str("ck", c->getCastKindName()).num("l", L).num("t", type(e->getType()));
            o.flag("impl", impl);
            if (isa<CXXDynamicCastExpr>(e)) o.num("dyn", 1);
            if (isa<CXXConstCastExpr>(e)) o.num("ccast", 1);
            if (isa<CXXReinterpretCastExpr>(e)) o.num("rcast", 1);
            return o.raw("e", expr(sub)).done();
        }
        case Stmt::UnaryOperatorClass:
        {
            auto u = cast<UnaryOperator>(e);
            o.str("k", "un").num("l", L).num("t", type(e->getType()));
            o.str("op", UnaryOperator::getOpcodeStr(u->getOpcode()));
            o.flag("post", u->isPostfix());
            return o.raw("e", expr(u->getSubExpr())).done();
        }
        case Stmt::BinaryOperatorClass:
        {
            auto b = cast<BinaryOperator>(e);
            o.num("l", L).num("t", type(e->getType()));
            if (b->isAssignmentOp()) o.str("k", "asg").str("op", "=");
            else o.str("k", "bin").str("op", b->getOpcodeStr());
            return o.raw("a", expr(b->getLHS())).raw("b", expr(b->getRHS())).done();
        }
        case Stmt::CompoundAssignOperatorClass:
        {
            auto b = cast<CompoundAssignOperator>(e);
            return o.num("l", L).num("t", type(e->getType())).str("k", "asg").str("op", b->getOpcodeStr())
                .raw("a", expr(b->getLHS())).raw("b", expr(b->getRHS())).done();
        }
        case Stmt::ConditionalOperatorClass:
        {
            auto c = cast<ConditionalOperator>(e);
            return o.str("k", "cond").num("l", L).num("t", type(e->getType())).raw("c", expr(c->getCond()))
                .raw("a", expr(c->getTrueExpr())).raw("b", expr(c->getFalseExpr())).flag("glv", e->isGLValue()).done();
        }
        case Stmt::ArraySubscriptExprClass:
        {
            auto a = cast<ArraySubscriptExpr>(e);
            return o.str("k", "idx").num("l", L).num("t", type(e->getType())).raw("b", expr(a->getBase())).raw("i", expr(a->getIdx())).done();
        }
        case Stmt::CXXNewExprClass:
        {
            auto n = cast<CXXNewExpr>(e);
            o.str("k", "new").num("l", L).num("t", type(e->getType())).num("at", type(n->getAllocatedType()));
            o.flag("arr", n->isArray());
            if (n->getInitializer()) o.raw("init", expr(n->getInitializer()));
            o.num("np", n->getNumPlacementArgs());
            return o.done();
        }
        case Stmt::CXXDeleteExprClass:
        {
            auto d = cast<CXXDeleteExpr>(e);
            return o.str("k", "del").num("l", L).flag("arr", d->isArrayForm()).raw("e", expr(d->getArgument())).done();
        }
        case Stmt::LambdaExprClass:
        {
            auto l = cast<LambdaExpr>(e);
            auto op = l->getCallOperator();
            o.str("k", "lambda").num("l", L).num("t", type(e->getType()));
            enqueue(op);
            o.str("u", usr(op));
            if (auto ft = l->getDependentCallOperator())
            {
                std::vector<string> sp;
                for (auto s : ft->specializations()) { enqueue(s); sp.push_back(esc(usr(s))); }
                o.raw("gen", arr(sp));
            }
            std::vector<string> caps;
            auto ci = l->capture_init_begin();
            for (auto& c : l->captures())
            {
                Obj q;
                if (c.capturesThis()) { q.num("this", 1); q.flag("copy", c.getCaptureKind() == LCK_StarThis); }
                else if (c.capturesVariable())
                {
                    auto vd = c.getCapturedVar();
                    q.num("d", localId(vd));
                    q.str("n", vd->getNameAsString());
                    q.flag("ref", c.getCaptureKind() == LCK_ByRef);
                    if (auto v = dyn_cast<VarDecl>(vd)) if (v->isInitCapture()) q.num("ic", 1);
                    if (ci != l->capture_init_end() && *ci) q.raw("init", expr(*ci));
                }
                ++ci;
                caps.push_back(q.done());
            }
            o.raw("caps", arr(caps));
            // a non-generic lambda body, in place
            return o.done();
        }
        case Stmt::CXXThrowExprClass:
        {
            auto t = cast<CXXThrowExpr>(e);
            o.str("k", "throw").num("l", L);
            if (t->getSubExpr()) { o.raw("e", expr(t->getSubExpr())); o.num("et", type(t->getSubExpr()->getType())); }
            return o.done();
        }
        case Stmt::InitListExprClass:
        {
            auto i = cast<InitListExpr>(e);
            if (i->isSyntacticForm() && i->getSemanticForm()) i = i->getSemanticForm();
            if (i->isTransparent() && i->getNumInits() == 1) return expr(i->getInit(0));
            o.str("k", "ilist").num("l", L).num("t", type(e->getType()));
            std::vector<string> v, fn;
            for (auto x : i->inits()) v.push_back(expr(x));
            if (auto r = e->getType()->getAsCXXRecordDecl())
                for (auto f : r->fields()) fn.push_back(esc(f->getName()));
            return o.raw("a", arr(v)).raw("fn", arr(fn)).done();
        }
        case Stmt::CXXParenListInitExprClass:
        {
            auto i = cast<CXXParenListInitExpr>(e);
            o.str("k", "ilist").num("l", L).num("t", type(e->getType()));
            std::vector<string> v, fn;
            for (auto x : i->getInitExprs()) v.push_back(expr(x));
            if (auto r = e->getType()->getAsCXXRecordDecl())
                for (auto f : r->fields()) fn.push_back(esc(f->getName()));
            return o.raw("a", arr(v)).raw("fn", arr(fn)).done();
        }
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass:
            return o.str("k", "zero").num("t", type(e->getType())).done();
        case Stmt::UnaryExprOrTypeTraitExprClass:
        case Stmt::SizeOfPackExprClass:
        case Stmt::TypeTraitExprClass:
        case Stmt::RequiresExprClass:
        case Stmt::ConceptSpecializationExprClass:
        case Stmt::CXXNoexceptExprClass:
        case Stmt::OffsetOfExprClass:
        {
            o.str("k", "cexpr").str("c", e->getStmtClassName()).num("l", L).num("t", type(e->getType()));
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsRValue(r, C) && r.Val.isInt())
            { llvm::SmallString<16> s; r.Val.getInt().toString(s, 10); o.str("v", s); }
            if (auto u = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
                if (u->getKind() == UETT_SizeOf) o.num("szof", type(u->getTypeOfArgument()));
            return o.done();
        }
        case Stmt::CXXTypeidExprClass:
        {
            auto t = cast<CXXTypeidExpr>(e);
            o.str("k", "typeid").num("l", L);
            if (t->isTypeOperand()) o.num("to", type(t->getTypeOperand(C)));
            else o.raw("e", expr(t->getExprOperand()));
            return o.done();
        }
        case Stmt::SourceLocExprClass:
            return o.str("k", "srcloc").num("l", L).num("t", type(e->getType())).str("w", cast<SourceLocExpr>(e)->getBuiltinStr()).done();
        case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
        case Stmt::ArrayInitLoopExprClass:
            return o.str("k", "arrcopy").num("l", L).num("t", type(e->getType())).raw("e", expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr())).done();
        default: return unsup(e);
        }
    }

    void emitFunction(const FunctionDecl* f)
    {
        Obj o;
        int file;
        o.str("u", usr(f));
        o.str("n", f->getNameAsString());
        o.str("q", f->getQualifiedNameAsString());
        o.num("l", loc(f->getLocation(), &file));
        o.num("el", loc(f->getEndLoc()));
        o.num("file", file);
        o.num("ret", type(f->getReturnType()));
        o.flag("noret", f->isNoReturn());
        o.flag("implicit", f->isImplicit() || f->isDefaulted());
        if (f->isOverloadedOperator()) o.str("op", getOperatorSpelling(f->getOverloadedOperator()));
        if (auto ta = f->getTemplateSpecializationArgs())
        {
            std::vector<string> v;
            for (auto& a : ta->asArray()) v.push_back(tmplArg(a));
            o.raw("ta", arr(v));
        }
        std::vector<string> ps;
        for (auto p : f->parameters())
        {
            Obj q;
            q.num("id", localId(p)).str("n", p->getNameAsString()).num("t", type(p->getType()));
            ps.push_back(q.done());
        }
        o.raw("p", arr(ps));
        if (auto m = dyn_cast<CXXMethodDecl>(f))
        {
            o.str("c", m->getParent()->getQualifiedNameAsString());
            o.str("cr", recName(m->getParent()));
            o.flag("static", m->isStatic());
            o.flag("const", m->isConst());
            o.flag("virt", m->isVirtual());
            o.flag("lambda", m->getParent()->isLambda());
            o.num("acc", m->getAccess());
            needRecord(m->getParent());
            std::vector<string> ov;
            for (auto b : m->overridden_methods()) ov.push_back(esc(usr(b)));
            if (!ov.empty()) o.raw("ov", arr(ov));
            if (m->isCopyAssignmentOperator()) o.num("casg", 1);
            if (m->isMoveAssignmentOperator()) o.num("masg", 1);
            if (isa<CXXDestructorDecl>(m)) o.num("dtor", 1);
            o.flag("lmut", m->getParent()->isLambda() && !m->isConst());
            if (m->getParent()->isLambda())
            {
                // captured variables by declaration
            }
        }
        if (auto c = dyn_cast<CXXConstructorDecl>(f))
        {
            o.num("ctor", c->isCopyConstructor() ? 2 : c->isMoveConstructor() ? 3 : c->isDefaultConstructor() ? 4 : 1);
            std::vector<string> v;
            for (auto i : c->inits())
            {
                Obj q;
                if (i->isAnyMemberInitializer()) q.str("fld", i->getAnyMember()->getName());
                else if (i->isBaseInitializer())
                {
                    auto br = QualType(i->getBaseClass(), 0)->getAsCXXRecordDecl();
                    q.str("base", recName(br));
                }
                else if (i->isDelegatingInitializer()) q.num("deleg", 1);
                q.flag("written", i->isWritten());
                q.num("l", loc(i->getSourceLocation()));
                q.raw("e", expr(i->getInit()));
                v.push_back(q.done());
            }
            o.raw("inits", arr(v));
        }
        o.raw("b", stmt(f->getBody()));
        functions[o_usr(f)] = o.done();
    }
    string o_usr(const FunctionDecl* f) { return usr(f); }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Exporter& X;
    Visitor(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->isThisDeclarationADefinition() || f->isDefaulted()) X.enqueue(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (r->isThisDeclarationADefinition() && X.inRoots(r->getLocation())) X.needRecord(r);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (v->hasGlobalStorage() && !v->isStaticLocal()) X.global(v);
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    CompilerInstance& CI;
    Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        Exporter X(C);
        Visitor(X).TraverseDecl(C.getTranslationUnitDecl());
        X.drainRecords();
        while (!X.todo.empty() || !X.recTodo.empty())
        {
            while (!X.todo.empty()) { auto f = X.todo.front(); X.todo.pop_front(); X.emitFunction(f); }
            X.drainRecords();
        }
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << "{\"files\":[";
        for (size_t i = 0; i < X.files.size(); i++) os << (i ? "," : "") << esc(X.files[i]);
        // every file of the repository or the models that was read, whatever it declares
        os << "],\n\"deps\":[";
        {
            std::set<string> deps;
            SourceManager& SM = C.getSourceManager();
            for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
            {
                string n = it->first.getName().str();
                llvm::SmallString<256> real;
                if (!llvm::sys::fs::real_path(n, real)) n = real.str().str();
                for (auto& r : gRoots)
                    if (n.compare(0, r.size(), r) == 0) deps.insert(n);
            }
            bool f1 = true;
            for (auto& d : deps) { os << (f1 ? "" : ",") << esc(d); f1 = false; }
        }
        os << "],\n\"types\":[";
        for (size_t i = 0; i < X.types.size(); i++) os << (i ? ",\n" : "") << X.types[i];
        os << "],\n\"functions\":{";
        bool first = true;
        for (auto& [u, j] : X.functions) { os << (first ? "" : ",\n") << esc(u) << ":" << j; first = false; }
        os << "},\n\"records\":{";
        first = true;
        for (auto& [u, j] : X.records) { os << (first ? "" : ",\n") << esc(u) << ":" << j; first = false; }
        os << "},\n\"globals\":{";
        first = true;
        for (auto& [u, j] : X.globals) { os << (first ? "" : ",\n") << esc(u) << ":" << j; first = false; }
        os << "},\n\"errors\":" << CI.getDiagnostics().getClient()->getNumErrors() << "}\n";
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, const char** argv)
{
    // nfx OUT.json ROOT[:ROOT..] SOURCE FLAGS...
    if (argc < 4) return 64;
    gOut = argv[1];
    string roots = argv[2];
    size_t p = 0;
    while (p != string::npos)
    {
        size_t q = roots.find(':', p);
        gRoots.push_back(roots.substr(p, q == string::npos ? q : q - p));
        p = q == string::npos ? q : q + 1;
    }
    string src = argv[3];
    std::vector<string> cmd {"clang++"};
    for (int i = 4; i < argc; i++) cmd.push_back(argv[i]);
    cmd.push_back("-fsyntax-only");
    cmd.push_back(src);
    FileManager* FM = new FileManager(FileSystemOptions());
    tooling::ToolInvocation inv(cmd, std::make_unique<Action>(), FM);
    bool ok = inv.run();
    return ok ? 0 : 3;
}
