// oblcheck: reads LLVM bitcode (already optimised), and for every function obl_* reports
//  - whether its obl_reached_* marker survived (non-vacuity)
//  - every surviving call to obl_violated_* / a forbidden external, reachable from it through the
//    call graph of the module, with the chain of inlined frames of the call, and the source
//    positions of the conditions which guard it (backward slice through branches and operands).
// Output: JSON on stdout. Deciding rule: an obligation is discharged iff no violated/forbidden call
// is reachable in its control-flow graph and the marker survives.
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LazyValueInfo.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Operator.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/ConstantRange.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cstring>
#include <set>
#include <map>
#include <deque>
#include <tuple>
#include <string>
#include <vector>
using namespace llvm;

static json::Object frame(const DILocation* l)
{
    json::Object o;
    auto* sp = l->getScope()->getSubprogram();
    SmallString<128> f(l->getDirectory());
    StringRef fn = l->getFilename();
    o["file"] = fn.starts_with("/") ? fn.str() : (f + "/" + fn).str();
    o["line"] = (int64_t)l->getLine();
    if(sp) o["func"] = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
    return o;
}

static json::Array chain(const Instruction& i)
{
    json::Array a;
    for(const DILocation* l = i.getDebugLoc().get(); l; l = l->getInlinedAt())
        a.push_back(frame(l));
    return a;
}

// obl_* functions, and instances of function templates of namespace oblt
static bool is_obligation(const Function& f) { return f.getName().starts_with("obl_") || f.getName().starts_with("_ZN4oblt"); }

// obl::violated<7>() and friends -> obl_violated_<file>_7
static std::string fact(const std::string& n)
{
    static const char* const k[][2] = {{"_ZN3obl8violatedILi", "obl_violated_u_"}, {"_ZN3obl5neverILi", "obl_violated_u_"},
        {"_ZN3obl9hviolatedILi", "obl_violated_hdr_"}, {"_ZN3obl7reachedILi", "obl_reached_u_"}};
    for(auto& e : k)
        if(n.rfind(e[0], 0) == 0)
            return e[1] + n.substr(strlen(e[0]), n.find('E', strlen(e[0])) - strlen(e[0]));
    return n;
}

static const Function* callee(const CallBase& cb)
{
    return dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
}

// library functions present in the module (before optimisation: everything the obligations instantiate)
static json::Array subprograms(Module& m)
{
    DebugInfoFinder dif;
    dif.processModule(m);
    json::Array subs;
    for(auto* sp : dif.subprograms())
    {
        json::Object o;
        StringRef fn = sp->getFilename();
        o["file"] = fn.starts_with("/") ? fn.str() : (sp->getDirectory() + "/" + fn).str();
        o["line"] = (int64_t)sp->getLine();
        o["func"] = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
        subs.push_back(std::move(o));
    }
    return subs;
}

// --prepare=OUT: annotates unoptimised bitcode before the data-flow passes run.
//  - the exception runtime and the fact markers touch no memory of the program (they would otherwise
//    clobber every escaped object on a throwing path);
//  - pointer arithmetic is taken not to wrap;
//  - operator new and delete are the usual ones;
//  - every defined library function is to be inlined into the obligations (context-sensitive analysis).
static int prepare(Module& m, const std::string& out)
{
    // Block copies of a length not known to the front end go through lib/cstr.h's own definitions, when the
    // unit has them: their data flow folds once the length is known, that of the intrinsics does not.
    for(auto id : {Intrinsic::memcpy, Intrinsic::memmove, Intrinsic::memset})
    {
        Function* by = m.getFunction(id == Intrinsic::memcpy ? "cstr_memcpy" : id == Intrinsic::memmove ? "cstr_memmove" : "cstr_memset");
        if(!by) continue;
        std::vector<MemIntrinsic*> todo;
        for(auto& f : m) for(auto& bb : f) for(auto& i : bb)
            if(auto* mi = dyn_cast<MemIntrinsic>(&i))
                if(mi->getIntrinsicID() == id && &f != by && !isa<ConstantInt>(mi->getLength())) todo.push_back(mi);
        for(auto* mi : todo)
        {
            IRBuilder<> b(mi);
            auto* c = b.CreateCall(by, {mi->getArgOperand(0), mi->getArgOperand(1), b.CreateZExtOrTrunc(mi->getLength(), b.getInt64Ty())});
            c->setDebugLoc(mi->getDebugLoc());
            mi->eraseFromParent();
        }
    }
    // -fwrapv keeps integer arithmetic modular; pointer arithmetic does not wrap (no object ends at the top of memory)
    for(auto& f : m) for(auto& bb : f) for(auto& i : bb)
        if(auto* g = dyn_cast<GetElementPtrInst>(&i)) g->setIsInBounds(true);
    for(auto& f : m)
    {
        if(f.isDeclaration())
        {
            std::string n = fact(f.getName().str());
            StringRef s(n);
            if(s.starts_with("obl_violated_") || s.starts_with("obl_reached_"))
            {
                f.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
                f.addFnAttr(Attribute::NoCallback);
            }
            // the heap hands out fresh storage, or throws
            if((s.starts_with("_Znw") || s.starts_with("_Zna")) && !s.ends_with("nothrow_t"))
            {
                f.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
                f.addRetAttr(Attribute::NonNull);
                f.addRetAttr(Attribute::NoAlias);
            }
            if(s.starts_with("_Zdl") || s.starts_with("_Zda")) f.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
            if(s == "__cxa_throw" || s == "__cxa_allocate_exception" || s == "__cxa_begin_catch" || s == "__cxa_end_catch" ||
               s == "__cxa_free_exception" || s == "_Unwind_Resume" || s == "__cxa_rethrow")
            {
                // exception objects in obligations have destructors without effect on the program
                f.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
                f.addFnAttr(Attribute::NoCallback);
                if(s == "__cxa_allocate_exception") f.addRetAttr(Attribute::NoAlias);
            }
        }
        else if(!is_obligation(f) && !f.hasFnAttribute(Attribute::NoInline) && !f.hasOptNone())
        {
            bool rec = false;
            for(auto& bb : f) for(auto& i : bb)
                if(auto* cb = dyn_cast<CallBase>(&i)) if(callee(*cb) == &f) rec = true;
            if(!rec) { f.addFnAttr(Attribute::AlwaysInline); }
        }
    }
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if(ec) return 2;
    WriteBitcodeToFile(m, os);
    return 0;
}

// Linear forms: what integer arithmetic amounts to, modulo the width, over the values it starts from. Two sides of an
// equality with one form are equal however the arithmetic was arranged.
struct Linear
{
    enum Ext { Zero, Sign, Low };       // how a value of another width enters
    struct Leaf     // a value, its quotient (of the value as an unsigned or as a signed number), or the rest
    {
        Value* v; Ext e; uint64_t by = 1; bool sign = false, rest = false;
        bool operator<(const Leaf& o) const { return std::tie(v, e, by, sign, rest) < std::tie(o.v, o.e, o.by, o.sign, o.rest); }
    };
    std::map<Leaf, APInt> terms;
    APInt c;
    explicit Linear(unsigned w) : c(w, 0) {}
    void add(const Linear& o, bool minus = false)
    {
        c += minus ? -o.c : o.c;
        for(auto& t : o.terms) add(t.first, minus ? -t.second : t.second);
    }
    void add(Leaf l, const APInt& k)
    {
        auto i = terms.find(l);
        if(i == terms.end()) { if(!k.isZero()) terms.emplace(l, k); return; }
        i->second += k;
        if(i->second.isZero()) terms.erase(i);
    }
    void scale(const APInt& k)
    {
        c *= k;
        std::map<Leaf, APInt> old; old.swap(terms);
        for(auto& t : old) add(t.first, t.second * k);
    }
    // as text, to tell whether forms are the same
    std::string key() const
    {
        std::string s;
        raw_string_ostream o(s);
        o << c.getBitWidth() << ':' << c;
        for(auto& t : terms) o << ' ' << t.second << '*' << (void*)t.first.v << '.' << int(t.first.e) << '.' << t.first.by << '.' << t.first.sign << t.first.rest;
        return s;
    }
};

struct Forms
{
    const DataLayout& dl;
    LazyValueInfo& lvi;
    Instruction* at = nullptr;      // where what is asked holds (nothing: anywhere)
    std::map<std::tuple<BasicBlock*, Value*, unsigned, int>, Linear> memo;
    std::map<std::string, Value*> roots;    // one value for all of the same form

    const bool rests;               // whether the lowest bits of a number are told by themselves, rather than by its quotient

    Forms(const DataLayout& dl, LazyValueInfo& lvi, bool rests) : dl(dl), lvi(lvi), rests(rests) {}

    ConstantRange range(Value* v, int depth)
    {
        const unsigned w = v->getType()->getIntegerBitWidth();
        if(auto* k = dyn_cast<ConstantInt>(v)) return ConstantRange(k->getValue());
        auto r = computeConstantRange(v, false).intersectWith(ConstantRange::fromKnownBits(computeKnownBits(v, dl), false));
        if(at) r = r.intersectWith(lvi.getConstantRange(v, at, false));
        if(depth <= 0) return r;
        if(auto* b = dyn_cast<BinaryOperator>(v))
        {
            auto x = range(b->getOperand(0), depth - 1), y = range(b->getOperand(1), depth - 1);
            if(b->getOpcode() == Instruction::Or && haveNoCommonBitsSet(b->getOperand(0), b->getOperand(1), SimplifyQuery(dl))) return r.intersectWith(x.add(y));
            return r.intersectWith(x.binaryOp(b->getOpcode(), y));
        }
        if(auto* c = dyn_cast<CastInst>(v))
            if(c->getOperand(0)->getType()->isIntegerTy()) return r.intersectWith(range(c->getOperand(0), depth - 1).castOp(c->getOpcode(), w));
        return r;
    }
    bool nonnegative(Value* v) { return isKnownNonNegative(v, SimplifyQuery(dl)) || range(v, 6).getSignedMin().isNonNegative(); }
    // may v be cut down to w bits and be extended again without change
    bool fits(Value* v, unsigned w, Linear::Ext e)
    {
        auto r = range(v, 6);
        return e == Linear::Zero ? r.getUnsignedMax().getActiveBits() <= w : r.getSignedMin().getSignificantBits() <= w && r.getSignedMax().getSignificantBits() <= w;
    }

    // v / by, as a whole number (truncated towards zero), modulo 2^w; divisions in a row are one
    Linear quotient(Value* v, uint64_t by, bool sign, unsigned w, int depth)
    {
        Linear r(w);
        for(;;)
        {
            const unsigned from = v->getType()->getIntegerBitWidth();
            auto* i = dyn_cast<Operator>(v);
            auto* k = i && i->getNumOperands() == 2 ? dyn_cast<ConstantInt>(i->getOperand(1)) : nullptr;
            uint64_t more = 0;
            if(k && i->getOpcode() == Instruction::UDiv && (!sign || nonnegative(v))) more = k->getZExtValue();
            else if(k && i->getOpcode() == Instruction::LShr && k->getValue().ult(from) && (!sign || nonnegative(v)) && k->getZExtValue() < 63) more = uint64_t(1) << k->getZExtValue();
            else if(k && i->getOpcode() == Instruction::SDiv && k->getValue().isStrictlyPositive() && (sign || nonnegative(v))) more = k->getZExtValue();
            uint64_t all;
            if(more && !__builtin_mul_overflow(by, more, &all))
            {
                auto* x = i->getOperand(0);
                if(i->getOpcode() == Instruction::SDiv ? !sign : sign)
                {
                    if(!nonnegative(x)) break;
                }
                by = all; v = x;
                continue;
            }
            if(i && (i->getOpcode() == Instruction::ZExt || (i->getOpcode() == Instruction::SExt && (sign || nonnegative(i->getOperand(0))))))
            {
                if(i->getOpcode() == Instruction::ZExt && sign) { if(!nonnegative(i->getOperand(0))) break; }
                v = i->getOperand(0);
                continue;
            }
            if(i && i->getOpcode() == Instruction::Trunc && fits(i->getOperand(0), from, sign ? Linear::Sign : Linear::Zero)) { v = i->getOperand(0); continue; }
            if(i && i->getOpcode() == Instruction::Trunc && !sign && by > 1 && (by & (by - 1)) == 0 && from < 62 && by < (uint64_t(1) << from) &&
               i->getOperand(0)->getType()->getIntegerBitWidth() <= 64 && depth > 0)
            {
                // the higher bits were cut off before
                r = quotient(i->getOperand(0), by, false, w, depth - 1);
                Linear cut = quotient(i->getOperand(0), uint64_t(1) << from, false, w, depth - 1);
                cut.scale(APInt(64, (uint64_t(1) << from) / by).zextOrTrunc(w));
                r.add(cut, true);
                return r;
            }
            break;
        }
        if(sign && nonnegative(v)) sign = false;
        if(v->getType()->getIntegerBitWidth() < 64 && by >> v->getType()->getIntegerBitWidth()) return r;   // less than one
        if(auto* k = dyn_cast<ConstantInt>(v))
        {
            r.c = sign ? APInt(64, uint64_t(k->getSExtValue() / int64_t(by))).sextOrTrunc(w) : APInt(64, k->getZExtValue() / by).zextOrTrunc(w);
            return r;
        }
        if(by > 1 && v->getType()->getIntegerBitWidth() <= 64)
        {
            const auto all = range(v, 6);
            if(!all.isEmptySet())
            {
                auto lo = sign ? all.getSignedMin().sext(64).getSExtValue() / int64_t(by) : int64_t(all.getUnsignedMin().getZExtValue() / by);
                auto hi = sign ? all.getSignedMax().sext(64).getSExtValue() / int64_t(by) : int64_t(all.getUnsignedMax().getZExtValue() / by);
                if(lo == hi) { r.c = APInt(64, uint64_t(lo), true).sextOrTrunc(w); return r; }
            }
            auto* here = at;
            at = nullptr;
            auto f = linear(v, v->getType()->getIntegerBitWidth(), Linear::Low, depth - 1);
            at = here;
            v = roots.emplace(f.key(), v).first->second;
        }
        if(by == 1 && v->getType()->getIntegerBitWidth() >= w) sign = false;
        r.add({v, sign ? Linear::Sign : Linear::Zero, by, by > 1 && sign}, APInt(w, 1));
        return r;
    }

    // v extended to (or cut down to) w bits; for Zero and Sign only operations known not to wrap are looked into
    const Linear& linear(Value* v, unsigned w, Linear::Ext ext, int depth = 24)
    {
        if(v->getType()->getIntegerBitWidth() == w) ext = Linear::Low;
        auto key = std::make_tuple(at ? at->getParent() : nullptr, v, w, int(ext));
        auto i = memo.find(key);
        if(i == memo.end())
        {
            Linear l = compute(v, w, ext, depth);
            i = memo.emplace(key, l).first;
        }
        return i->second;
    }

    Linear compute(Value* v, unsigned w, Linear::Ext ext, int depth)
    {
        Linear r(w);
        const unsigned from = v->getType()->getIntegerBitWidth();
        const bool wraps = ext == Linear::Low;  // arithmetic modulo 2^w commutes with cutting down
        auto sub = [&](Value* o) -> const Linear& { return linear(o, w, ext, depth - 1); };
        if(auto* k = dyn_cast<ConstantInt>(v))
        {
            r.c = ext == Linear::Zero ? k->getValue().zextOrTrunc(w) : k->getValue().sextOrTrunc(w);
            return r;
        }
        auto leaf = [&]
        {
            Linear::Ext e = ext;
            if(from >= w || (e == Linear::Sign && nonnegative(v))) e = Linear::Zero;    // the same, as far as w bits go
            r.add({v, e}, APInt(w, 1));
            return r;
        };
        auto* i = dyn_cast<Operator>(v);
        if(!i || depth <= 0) return leaf();
        // the number o, modulo 2^w
        auto whole = [&](Value* o, bool sign) -> const Linear& { return linear(o, w, o->getType()->getIntegerBitWidth() >= w ? Linear::Low : sign && !nonnegative(o) ? Linear::Sign : Linear::Zero, depth - 1); };
        auto remainder = [&](Value* x, uint64_t by, bool sign)
        {
            Linear q = quotient(x, by, sign, w, depth);
            if(rests && (by & (by - 1)) == 0 && by > 1 && !sign && !q.terms.empty())
            {
                // the lowest bits, which only depend on the lowest bits of what x is made from
                const unsigned bits = __builtin_ctzll(by);
                auto* here = at;
                at = nullptr;
                const Linear low = linear(x, bits, Linear::Low, depth - 1);
                at = here;
                Linear n(w);
                if(low.terms.empty()) n.c = low.c.zextOrTrunc(w);
                else n.add({roots.emplace(low.key(), x).first->second, Linear::Zero, by, false, true}, APInt(w, 1));
                return n;
            }
            q.scale(APInt(64, by).zextOrTrunc(w));
            Linear n = whole(x, sign);
            n.add(q, true);
            return n;
        };
        auto exact = [&]    // does the operation not wrap, in the sense of the extension
        {
            if(wraps) return true;
            if(auto* b = dyn_cast<OverflowingBinaryOperator>(i))
            {
                if(ext == Linear::Zero ? b->hasNoUnsignedWrap() : b->hasNoSignedWrap()) return true;
                // the operation done twice as wide stays within what fits
                const unsigned wide = 2 * from;
                auto x = range(b->getOperand(0), depth - 1), y = range(b->getOperand(1), depth - 1);
                const auto all = ConstantRange::getFull(from);
                auto widen = [&](const ConstantRange& r) { return ext == Linear::Zero ? r.zeroExtend(wide) : r.signExtend(wide); };
                return widen(all).contains(widen(x).binaryOp(Instruction::BinaryOps(b->getOpcode()), widen(y)));
            }
            return false;
        };
        auto* k = i->getNumOperands() == 2 ? dyn_cast<ConstantInt>(i->getOperand(1)) : nullptr;
        switch(i->getOpcode())
        {
            case Instruction::Add: case Instruction::Sub:
                if(!exact()) return leaf();
                r = sub(i->getOperand(0));
                r.add(sub(i->getOperand(1)), i->getOpcode() == Instruction::Sub);
                return r;
            case Instruction::Mul: case Instruction::Shl:
            {
                if(!k || !exact()) return leaf();
                APInt f = k->getValue();
                if(i->getOpcode() == Instruction::Shl)
                {
                    if(f.uge(from)) return leaf();
                    f = APInt(w, 1).shl(f.getZExtValue() >= w ? w : f.getZExtValue());
                }
                else f = ext == Linear::Zero ? f.zextOrTrunc(w) : f.sextOrTrunc(w);
                r = sub(i->getOperand(0));
                r.scale(f);
                return r;
            }
            case Instruction::Or:
                if(ext == Linear::Sign && !nonnegative(v)) return leaf();
                if(!cast<PossiblyDisjointInst>(i)->isDisjoint() && !haveNoCommonBitsSet(i->getOperand(0), i->getOperand(1), SimplifyQuery(dl))) return leaf();
                r = sub(i->getOperand(0));
                r.add(sub(i->getOperand(1)));
                return r;
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            {
                const bool sign = i->getOpcode() == Instruction::SDiv || i->getOpcode() == Instruction::SRem;
                if(!k || from > 64 || (sign ? !k->getValue().isStrictlyPositive() : k->isZero())) return leaf();
                if(ext == Linear::Sign ? !sign && !nonnegative(v) : ext == Linear::Zero && sign && !nonnegative(v)) return leaf();
                const uint64_t by = k->getZExtValue();
                return i->getOpcode() == Instruction::UDiv || i->getOpcode() == Instruction::SDiv ? quotient(i->getOperand(0), by, sign, w, depth) : remainder(i->getOperand(0), by, sign);
            }
            case Instruction::And:
            {
                // some bits in a row
                if(!k || from > 62 || !k->getValue().isShiftedMask() || k->getValue().isAllOnes()) return leaf();
                const unsigned low = k->getValue().countr_zero(), high = k->getValue().getActiveBits();
                if(ext == Linear::Sign && high == from) return leaf();
                auto* x = i->getOperand(0);
                Linear n = (ext == Linear::Low && high >= w) || high == from ? whole(x, false) : remainder(x, uint64_t(1) << high, false);
                if(low) n.add(remainder(x, uint64_t(1) << low, false), true);
                return n;
            }
            case Instruction::Xor:
                if(!k || !k->isMinusOne() || !wraps) return leaf();
                r.add(sub(i->getOperand(0)), true);
                r.c -= 1;
                return r;
            case Instruction::LShr: case Instruction::AShr:
            {
                if(!k || from > 64 || k->getValue().uge(from)) return leaf();
                const unsigned n = k->getZExtValue();
                if(ext == Linear::Low && w <= from - n)
                {
                    // a whole multiple shifted back
                    const Linear& x = linear(i->getOperand(0), from, Linear::Low, depth - 1);
                    bool all = x.c.countr_zero() >= n;
                    for(auto& t : x.terms) all = all && t.second.countr_zero() >= n;
                    if(all)
                    {
                        r.c = x.c.lshr(n).trunc(w);
                        for(auto& t : x.terms) r.add(t.first, t.second.lshr(n).trunc(w));
                        return r;
                    }
                }
                if((i->getOpcode() == Instruction::AShr && !nonnegative(i->getOperand(0))) || n > 62) return leaf();
                if(ext == Linear::Sign && !nonnegative(v)) return leaf();
                return quotient(i->getOperand(0), uint64_t(1) << n, false, w, depth);
            }
            case Instruction::ZExt: case Instruction::SExt:
            {
                auto* o = i->getOperand(0);
                const unsigned inner = o->getType()->getIntegerBitWidth();
                const auto e = i->getOpcode() == Instruction::ZExt ? Linear::Zero : Linear::Sign;
                if(inner >= w) return linear(o, w, Linear::Low, depth - 1);     // what was added is cut off again
                // zero extended anew: still zero extended; sign extended after zero extension: likewise; a sign extension
                // zero extended after is something else
                if(ext == Linear::Zero && e == Linear::Sign && !nonnegative(o)) return leaf();
                return linear(o, w, e == Linear::Sign && ext == Linear::Zero ? Linear::Zero : e, depth - 1);
            }
            case Instruction::Trunc:
            {
                auto* o = i->getOperand(0);
                if(ext == Linear::Low) return linear(o, w, Linear::Low, depth - 1);
                if(o->getType()->getIntegerBitWidth() > 64) return leaf();
                if(fits(o, from, ext)) return whole(o, ext == Linear::Sign);
                if(ext == Linear::Zero && from < 62) return remainder(o, uint64_t(1) << from, false);
                return leaf();
            }
            case Instruction::Select:
            {
                Linear yes = sub(i->getOperand(1)), no = sub(i->getOperand(2));
                Linear d = yes;
                d.add(no, true);
                if(d.terms.empty() && d.c.isZero()) return yes;
                // which arm is taken does not matter where the condition says x == k and the arms differ by a multiple of x - k
                auto* c = dyn_cast<ICmpInst>(i->getOperand(0));
                auto* k = c ? dyn_cast<ConstantInt>(c->getOperand(1)) : nullptr;
                if(!k || d.terms.empty()) return leaf();
                auto* x = c->getOperand(0);
                bool other = false;     // the arm to take always
                if(c->getPredicate() == CmpInst::ICMP_EQ) other = false;
                else if(c->getPredicate() == CmpInst::ICMP_NE) other = true;
                else if(c->getPredicate() == CmpInst::ICMP_SLT && k->isZero() && range(x, depth).getSignedMax().sle(0)) other = true;
                else if(c->getPredicate() == CmpInst::ICMP_SGT && k->isMinusOne() && range(x, depth).getSignedMax().sle(0)) { other = false; k = ConstantInt::get(cast<IntegerType>(k->getType()), 0); }
                else return leaf();
                const bool wide = x->getType()->getIntegerBitWidth() < w;
                if(x->getType()->getIntegerBitWidth() > w) return leaf();
                Linear z = linear(x, w, wide ? Linear::Sign : Linear::Low, depth - 1);
                z.c -= wide ? k->getValue().sext(w) : k->getValue();
                if(z.terms.empty()) return leaf();
                auto first = z.terms.begin();
                auto match = d.terms.find(first->first);
                if(match == d.terms.end() || !(first->second.isOne() || first->second.isAllOnes())) return leaf();
                z.scale(first->second.isOne() ? match->second : -match->second);
                d.add(z, true);
                if(!d.terms.empty() || !d.c.isZero()) return leaf();
                return other ? yes : no;
            }
            default:
                return leaf();
        }
    }

    // what an equality of integers amounts to, when the forms of its sides tell
    Constant* settled(ICmpInst* c)
    {
        auto* x = c->getOperand(0);
        auto* y = c->getOperand(1);
        auto* t = x->getType();
        if(!c->isEquality() || !t->isIntegerTy() || isa<Constant>(x)) return nullptr;
        const unsigned w = t->getIntegerBitWidth();
        if(w < 2 || w > 64) return nullptr;
        at = c;
        auto value = [&](bool equal) { return ConstantInt::get(c->getType(), equal == (c->getPredicate() == CmpInst::ICMP_EQ)); };
        Linear d = linear(x, w, Linear::Low);
        d.add(linear(y, w, Linear::Low), true);
        if(d.terms.empty()) return value(d.c.isZero());
        // numbers of fewer bits which agree in those
        for(unsigned n : {8u, 16u, 32u})
            if(n < w)
            {
                bool small = false;
                for(auto e : {Linear::Zero, Linear::Sign}) small = small || (fits(x, n, e) && fits(y, n, e));
                if(!small) continue;
                Linear l = linear(x, n, Linear::Low);
                l.add(linear(y, n, Linear::Low), true);
                if(l.terms.empty()) return value(l.c.isZero());
            }
        return nullptr;
    }
};

// Replaces what has the form of a remainder, or of something already there, by that: the passes do not see through
// arithmetic arranged otherwise.
static void number(Function& f, Forms& forms)
{
    DominatorTree dt(f);
    std::map<std::string, std::vector<Instruction*>> same;
    ReversePostOrderTraversal<Function*> rpo(&f);
    std::vector<std::pair<Instruction*, Value*>> todo;
    for(auto* bb : rpo)
        for(auto& i : *bb)
        {
            if(!i.getType()->isIntegerTy() || (!isa<BinaryOperator>(i) && !isa<CastInst>(i))) continue;
            const unsigned w = i.getType()->getIntegerBitWidth();
            if(w < 2 || w > 64) continue;
            if(isa<CastInst>(i) && !i.getOperand(0)->getType()->isIntegerTy()) continue;
            forms.at = &i;
            const Linear l = forms.linear(&i, w, Linear::Low);
            if(l.terms.empty()) { todo.emplace_back(&i, ConstantInt::get(i.getType(), l.c)); continue; }
            auto& g = same[l.key()];
            Instruction* by = nullptr;
            for(auto* o : g)
                if(dt.dominates(o, &i)) { by = o; break; }
            if(!by) { g.push_back(&i); continue; }
            auto rank = [](Instruction* i) { auto o = i->getOpcode(); return o == Instruction::URem || o == Instruction::SRem || o == Instruction::UDiv || o == Instruction::SDiv ? 0 : isa<CastInst>(i) ? 1 : 2; };
            if(rank(by) > rank(&i) && isSafeToSpeculativelyExecute(&i))
            {
                // the plainer one in place of the other, if it can stand there
                bool can = true;
                for(auto& o : i.operands())
                    if(auto* d = dyn_cast<Instruction>(o)) can = can && d != by && dt.dominates(d, by);
                if(can)
                {
                    auto* n = i.clone();
                    n->dropPoisonGeneratingFlags();
                    n->insertBefore(by);
                    todo.emplace_back(by, n);
                    todo.emplace_back(&i, n);
                    for(auto& o : g) if(o == by) o = n;
                    continue;
                }
            }
            todo.emplace_back(&i, by);
        }
    // one may stand for another which is itself replaced
    std::map<Value*, Value*> to;
    for(auto& t : todo) to[t.first] = t.second;
    for(auto& t : todo)
    {
        Value* v = t.second;
        for(auto j = to.find(v); j != to.end(); j = to.find(v)) v = j->second;
        t.first->replaceAllUsesWith(v);
    }
}

// --again=OUT: readies a unit for a further round of the passes: loops already transformed may be transformed
// again, a place inside an object is not at the null address, equal arithmetic is equal, and the obligations named, which are settled, are dropped.
static int again(Module& m, const std::string& out, const std::set<std::string>& settled)
{
    PassBuilder pb;
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    for(auto& f : m)
    {
        if(!f.isDeclaration() && settled.count(f.getName().str())) { f.deleteBody(); f.setComdat(nullptr); continue; }
        std::vector<ICmpInst*> nulls;   // pointers, hence not among the equal
        for(auto& bb : f)
        {
            if(auto* t = bb.getTerminator()) t->setMetadata(LLVMContext::MD_loop, nullptr);
            for(auto& i : bb)
                if(auto* c = dyn_cast<ICmpInst>(&i))
                    if(c->isEquality() && isa<ConstantPointerNull>(c->getOperand(1)))
                    {
                        auto* o = c->getOperand(0)->stripInBoundsOffsets();
                        if(isa<AllocaInst>(o) || (isa<GlobalVariable>(o) && !cast<GlobalVariable>(o)->hasExternalWeakLinkage())) nulls.push_back(c);
                    }
        }
        if(!f.isDeclaration())
        {
            { Forms forms(m.getDataLayout(), fam.getResult<LazyValueAnalysis>(f), false); number(f, forms); }
            fam.invalidate(f, PreservedAnalyses::none());
            Forms a(m.getDataLayout(), fam.getResult<LazyValueAnalysis>(f), false), b(m.getDataLayout(), fam.getResult<LazyValueAnalysis>(f), true);
            std::vector<std::pair<ICmpInst*, Constant*>> equal;
            for(auto& bb : f)
                for(auto& i : bb)
                    if(auto* c = dyn_cast<ICmpInst>(&i))
                        if(auto* k = a.settled(c) ? a.settled(c) : b.settled(c)) equal.emplace_back(c, k);
            fam.invalidate(f, PreservedAnalyses::none());
            for(auto& e : equal) { e.first->replaceAllUsesWith(e.second); e.first->eraseFromParent(); }
        }
        for(auto* c : nulls)
        {
            c->replaceAllUsesWith(ConstantInt::get(c->getType(), c->getPredicate() == CmpInst::ICMP_NE));
            c->eraseFromParent();
        }
    }
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if(ec) return 2;
    WriteBitcodeToFile(m, os);
    return 0;
}

// --reach: call graph of the program as written (no pass has run, so no path is left out). Reports each forbidden function
// which can be reached from an obligation, each vtable of the library, and each variable which lasts beyond a call (where
// the file has debug information on those), with a path through the call graph.
static bool owned(const Function& f)
{
    return f.getName().contains("4estd");
}
// declared const, or elements of it are
static bool fixed(const DIType* t)
{
    while(t)
        if(t->getTag() == dwarf::DW_TAG_const_type) return true;
        else if(t->getTag() == dwarf::DW_TAG_array_type) t = cast<DICompositeType>(t)->getBaseType();
        else if(t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_volatile_type) t = cast<DIDerivedType>(t)->getBaseType();
        else return false;
    return false;
}
static int reach(Module& m, const std::set<std::string>& forbid)
{
    struct Edge { const Function* from; const Instruction* at; };
    std::map<const Function*, Edge> how;
    std::deque<const Function*> q;
    for(auto& f : m)
        if(!f.isDeclaration() && is_obligation(f)) { how[&f] = {nullptr, nullptr}; q.push_back(&f); }
    const size_t roots = q.size();
    json::Array hits, funcs;
    std::set<std::string> told, ext;
    size_t edges = 0;
    auto path = [&](const Function* g, const Instruction& i)
    {
        json::Array a;
        const Instruction* at = &i;
        for(; g; at = how[g].at, g = how[g].from)
        {
            json::Object o;
            o["func"] = demangle(g->getName().str());
            o["file"] = ""; o["line"] = 0;
            if(auto* sp = g->getSubprogram())
            {
                StringRef fn = sp->getFilename();
                o["file"] = fn.starts_with("/") ? fn.str() : (sp->getDirectory() + "/" + fn).str();
                o["line"] = int64_t(at && at->getDebugLoc() ? at->getDebugLoc().getLine() : sp->getLine());
            }
            a.push_back(std::move(o));
        }
        return a;
    };
    auto hit = [&](const char* kind, const std::string& sym, const Function* g, const Instruction& i, const DIGlobalVariable* d = nullptr)
    {
        // once per symbol and function it is in
        if(!told.insert(sym + ' ' + g->getName().str()).second) return;
        json::Object o;
        o["kind"] = kind; o["sym"] = demangle(sym); o["path"] = path(g, i);
        o["file"] = ""; o["line"] = 0;
        if(d)
        {
            StringRef fn = d->getFilename();
            o["file"] = fn.starts_with("/") ? fn.str() : (d->getDirectory() + "/" + fn).str();
            o["line"] = int64_t(d->getLine());
        }
        hits.push_back(std::move(o));
    };
    while(!q.empty())
    {
        const Function* g = q.front(); q.pop_front();
        if(owned(*g))
            if(auto* sp = g->getSubprogram())
            {
                StringRef fn = sp->getFilename();
                funcs.push_back(json::Object{{"file", fn.starts_with("/") ? fn.str() : (sp->getDirectory() + "/" + fn).str()},
                    {"line", int64_t(sp->getLine())}, {"func", demangle(g->getName().str())}});
            }
        for(auto& bb : *g)
            for(auto& i : bb)
            {
                if(isa<DbgInfoIntrinsic>(i)) continue;
                // functions named by the instruction, itself or through constants (tables, vtables)
                std::deque<const Value*> w;
                std::set<const Value*> vs;
                for(auto& op : i.operands()) if(isa<Constant>(op)) w.push_back(op);
                while(!w.empty())
                {
                    const Value* v = w.front(); w.pop_front();
                    if(!vs.insert(v).second) continue;
                    if(auto* h = dyn_cast<Function>(v))
                    {
                        edges++;
                        const std::string n = h->getName().str();
                        if(forbid.count(n)) { hit("heap", n, g, i); continue; }
                        if(h->isDeclaration()) { if(!h->isIntrinsic()) ext.insert(fact(n)); continue; }
                        if(!how.count(h)) { how[h] = {g, &i}; q.push_back(h); }
                    }
                    else if(auto* gv = dyn_cast<GlobalVariable>(v))
                    {
                        if(gv->getName().starts_with("_ZTV") && gv->getName().contains("4estd")) hit("virtual", gv->getName().str(), g, i);
                        // what lasts beyond a call, and is not constant
                        SmallVector<DIGlobalVariableExpression*, 1> e;
                        gv->getDebugInfo(e);
                        auto* d = e.empty() ? nullptr : e[0]->getVariable();
                        if(!gv->isConstant() && d && !fixed(d->getType())) hit("state", gv->getName().str(), g, i, d);
                        if(gv->hasInitializer() && gv->isConstant()) w.push_back(gv->getInitializer());
                    }
                    else if(auto* c = dyn_cast<Constant>(v))
                        for(auto& op : c->operands()) w.push_back(op);
                }
            }
    }
    json::Array e;
    for(auto& s : ext) if(!StringRef(s).starts_with("obl_")) e.push_back(s);
    json::Object top;
    top["roots"] = int64_t(roots); top["functions"] = int64_t(how.size()); top["edges"] = int64_t(edges);
    top["library"] = std::move(funcs); top["externals"] = std::move(e); top["hits"] = std::move(hits);
    outs() << json::Value(std::move(top)) << "\n";
    return 0;
}

int main(int argc, char** argv)
{
    std::set<std::string> forbid;
    std::string in, prep, more;
    std::set<std::string> settled;
    bool indirect = false, reachable = false;
    for(int i = 1; i < argc; i++)
    {
        StringRef a(argv[i]);
        if(a.starts_with("--forbid=")) forbid.insert(a.substr(9).str());
        else if(a == "--no-indirect") indirect = true;
        else if(a == "--reach") reachable = true;
        else if(a.starts_with("--again=")) more = a.substr(8).str();
        else if(a.starts_with("--settled="))
        {
            auto b = MemoryBuffer::getFile(a.substr(10));
            if(!b) { errs() << "oblcheck: cannot read " << a << "\n"; return 2; }
            SmallVector<StringRef, 64> l;
            (*b)->getBuffer().split(l, '\n', -1, false);
            for(auto n : l) settled.insert(n.str());
        }
        else if(a.starts_with("--prepare=")) prep = a.substr(10).str();
        else in = a.str();
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(in, err, ctx);
    if(!m) { err.print("oblcheck", errs()); return 2; }

    if(reachable) return reach(*m, forbid);

    if(!prep.empty())
    {
        outs() << json::Value(subprograms(*m)) << "\n";
        return prepare(*m, prep);
    }

    if(!more.empty()) return again(*m, more, settled);

    json::Array out;
    for(auto& f : *m)
    {
        if(f.isDeclaration() || !is_obligation(f)) continue;
        json::Object o;
        o["name"] = f.getName().str();
        if(auto* sp = f.getSubprogram())
        {
            o["file"] = sp->getFilename().str();
            o["line"] = (int64_t)sp->getLine();
        }
        // functions reachable through direct calls (or address taken inside them)
        std::set<const Function*> seen{&f};
        std::deque<const Function*> q{&f};
        bool reached = false;
        int64_t insts = 0;
        json::Array res;
        std::set<std::string> ext;
        std::set<std::string> srcs;
        while(!q.empty())
        {
            const Function* g = q.front(); q.pop_front();
            for(auto& bb : *g)
            {
                if(&bb != &g->getEntryBlock() && pred_empty(&bb)) continue;
                for(auto& i : bb)
                {
                    if(isa<DbgInfoIntrinsic>(i)) continue;
                    insts++;
                    for(auto& op : i.operands())
                        if(auto* h = dyn_cast<Function>(op->stripPointerCasts()))
                            if(!h->isDeclaration() && seen.insert(h).second) q.push_back(h);
                    auto* cb = dyn_cast<CallBase>(&i);
                    if(!cb || isa<IntrinsicInst>(i))
                    {
                        if(auto* ii = dyn_cast<IntrinsicInst>(&i))
                            if(ii->getIntrinsicID() == Intrinsic::trap || ii->getIntrinsicID() == Intrinsic::ubsantrap)
                            {
                                json::Object r;
                                r["sym"] = ii->getIntrinsicID() == Intrinsic::trap ? "llvm.trap" : "llvm.ubsantrap";
                                if(forbid.count(r["sym"].getAsString()->str()))
                                {
                                    if(ii->getIntrinsicID() == Intrinsic::ubsantrap)
                                        r["kind"] = (int64_t)cast<ConstantInt>(ii->getArgOperand(0))->getZExtValue();
                                    r["frames"] = chain(i);
                                    res.push_back(std::move(r));
                                }
                            }
                        continue;
                    }
                    auto* c = callee(*cb);
                    std::string n = c ? c->getName().str() : "<indirect>";
                    n = fact(n);
                    if(StringRef(n).starts_with("obl_reached_")) { if(g == &f) reached = true; continue; }
                    if(c && !c->isDeclaration()) continue;
                    ext.insert(n);
                    bool bad = StringRef(n).starts_with("obl_violated_") || forbid.count(n) ||
                        (!c && indirect && !cb->isInlineAsm());
                    if(!bad) continue;
                    json::Object r;
                    r["sym"] = n;
                    r["frames"] = chain(i);
                    // slice: guarding conditions of this block, breadth first
                    json::Array sl;
                    std::set<std::string> pos;
                    std::set<const BasicBlock*> bseen{&bb};
                    std::deque<const BasicBlock*> bq{&bb};
                    std::set<const Value*> vseen;
                    int budget = 400;
                    while(!bq.empty() && budget > 0)
                    {
                        const BasicBlock* b = bq.front(); bq.pop_front();
                        for(auto* p : predecessors(b))
                        {
                            if(!bseen.insert(p).second) continue;
                            bq.push_back(p);
                            const Value* cond = nullptr;
                            if(auto* br = dyn_cast<BranchInst>(p->getTerminator()))
                            { if(br->isConditional()) cond = br->getCondition(); }
                            else if(auto* sw = dyn_cast<SwitchInst>(p->getTerminator())) cond = sw->getCondition();
                            std::deque<const Value*> vq;
                            if(cond) vq.push_back(cond);
                            while(!vq.empty() && budget-- > 0)
                            {
                                const Value* v = vq.front(); vq.pop_front();
                                if(!vseen.insert(v).second) continue;
                                auto* ins = dyn_cast<Instruction>(v);
                                if(!ins) continue;
                                for(const DILocation* l = ins->getDebugLoc().get(); l; l = l->getInlinedAt())
                                {
                                    if(l->getLine() == 0) continue;
                                    auto fo = frame(l);
                                    std::string key = fo["file"].getAsString()->str() + ":" + std::to_string(l->getLine());
                                    if(pos.insert(key).second) sl.push_back(std::move(fo));
                                }
                                for(auto& op : ins->operands()) vq.push_back(op);
                            }
                        }
                    }
                    r["slice"] = std::move(sl);
                    res.push_back(std::move(r));
                }
            }
        }
        o["reached"] = reached;
        o["insts"] = insts;
        json::Array e;
        for(auto& s : ext) e.push_back(s);
        o["externals"] = std::move(e);
        o["residual"] = std::move(res);
        out.push_back(std::move(o));
    }
    json::Array subs = subprograms(*m);
    json::Object top;
    top["obligations"] = std::move(out);
    top["subprograms"] = std::move(subs);
    outs() << json::Value(std::move(top)) << "\n";
    return 0;
}
