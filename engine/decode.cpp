#include "engine.hpp"
using namespace llvm;
namespace fsx {

Layout *Engine::layout(Type *t) {
    auto it = layouts.find(t); if (it != layouts.end()) return it->second;
    Layout *L = new Layout; L->size = t->isSized() ? DL->getTypeStoreSize(t).getKnownMinValue() : 0;
    std::function<void(Type *, uint32_t)> rec = [&](Type *x, uint32_t off) {
        if (x->isVoidTy() || x->isLabelTy() || x->isMetadataTy() || x->isTokenTy()) return;
        if (x->isIntegerTy()) { unsigned w = x->getIntegerBitWidth(); if (w <= 64) L->l.push_back({off, (uint8_t)w, 0}); else { if (w != 128) L->fp = L->fp; L->wide = true; L->l.push_back({off, 64, 0}); L->l.push_back({off + 8, 64, 0}); } return; }
        if (x->isPointerTy()) { L->l.push_back({off, 64, 1}); return; }
        if (x->isFloatTy()) { L->fp = true; L->l.push_back({off, 32, 0}); return; }
        if (x->isDoubleTy()) { L->fp = true; L->l.push_back({off, 64, 0}); return; }
        if (x->isX86_FP80Ty()) { L->fp = true; L->l.push_back({off, 64, 0}); return; }
        if (auto *s = dyn_cast<StructType>(x)) { if (!s->isSized()) return; auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) rec(s->getElementType(i), off + sl->getElementOffset(i)); return; }
        if (auto *a = dyn_cast<ArrayType>(x)) { uint64_t sz = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) rec(a->getElementType(), off + i * sz); return; }
        if (auto *v = dyn_cast<FixedVectorType>(x)) { uint64_t sz = DL->getTypeSizeInBits(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) rec(v->getElementType(), off + i * sz / 8); return; }
        L->fp = true;
    };
    rec(t, 0); layouts[t] = L; layoutIdx[L] = layoutTab.size(); layoutTab.push_back(L); return L;
}

uint64_t Engine::constAddr(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getValue().getLoBits(64).getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *f = dyn_cast<Function>(c)) { fc(f); return (uint64_t)(0x20000000u + fnIds[f]) << 32; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = gvIds.find(g); if (it == gvIds.end()) { fprintf(stderr, "unknown global\n"); abort(); } return (uint64_t)(0x10000000u + it->second) << 32; }
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
    if (auto *fp = dyn_cast<ConstantFP>(c)) return fp->getValueAPF().bitcastToAPInt().getLoBits(64).getZExtValue();
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        unsigned w = e->getType()->isIntegerTy() ? e->getType()->getIntegerBitWidth() : 64;
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) break; return constAddr(e->getOperand(0)) + off.getSExtValue(); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: return constAddr(e->getOperand(0)) & maskw(w);
        case Instruction::Add: return (constAddr(e->getOperand(0)) + constAddr(e->getOperand(1))) & maskw(w);
        case Instruction::Sub: return (constAddr(e->getOperand(0)) - constAddr(e->getOperand(1))) & maskw(w);
        case Instruction::Xor: return (constAddr(e->getOperand(0)) ^ constAddr(e->getOperand(1))) & maskw(w);
        case Instruction::ICmp: { uint64_t a = constAddr(e->getOperand(0)), b = constAddr(e->getOperand(1)); switch (e->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "fsx: unsupported constant %s\n", os.str().substr(0, 300).c_str()); return 0;
}
void Engine::flattenConst(const Constant *c, std::vector<SV> &out) {
    Type *t = c->getType(); Layout *L = layout(t);
    auto push = [&](uint64_t v) { SV s; s.c = v; out.push_back(s); };
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < L->l.size(); i++) push(0); return; }
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { if (auto *ci = dyn_cast<ConstantInt>(c)) { APInt v = ci->getValue().zextOrTrunc(128); push(v.getRawData()[0]); push(v.getRawData()[1]); } else { push(0); push(0); } return; }
    if (t->isIntegerTy() || t->isPointerTy() || t->isFloatingPointTy()) { 
        if (t->isX86_FP80Ty()) { if (auto *f = dyn_cast<ConstantFP>(c)) { APFloat v = f->getValueAPF(); bool l; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); push(v.bitcastToAPInt().getZExtValue()); return; } }
        push(constAddr(c)); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) flattenConst(cast<Constant>(ca->getOperand(i)), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) flattenConst(cd->getElementAsConstant(i), out); return; }
    for (size_t i = 0; i < L->l.size(); i++) push(0);
}
int Engine::addConst(const SV *v, size_t n) {
    if (n == 1) { auto it = constIdx.find({v->c, 0}); if (it != constIdx.end()) return it->second; }
    // multi-slot constants occupy descending negative operands: operand o, o-1, ... ; stored so that consts[-1-(o)] .. is consecutive upwards
    int base = consts.size(); for (size_t i = 0; i < n; i++) consts.push_back(v[i]);
    int op = -1 - base; if (n == 1) constIdx[{v->c, 0}] = op; return op;
}
void Engine::writeConst(State &st, MemObj *o, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(st, o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
    if (auto *a = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) writeConst(st, o, off + i * sz, a->getOperand(i)); return; }
    if (auto *v = dyn_cast<ConstantVector>(c)) { uint64_t sz = DL->getTypeAllocSize(cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < v->getNumOperands(); i++) writeConst(st, o, off + i * sz, v->getOperand(i)); return; }
    if (auto *ci = dyn_cast<ConstantInt>(c); ci && ci->getBitWidth() > 64) { unsigned n = (ci->getBitWidth() + 7) / 8; for (unsigned i = 0; i < n; i++) o->data[off + i] = ci->getValue().extractBitsAsZExtValue(std::min(8u, ci->getBitWidth() - i * 8), i * 8); return; }
    uint64_t v = constAddr(c); unsigned n = DL->getTypeStoreSize(t); memcpy(o->data + off, &v, std::min(n, 8u));
}
FuncCode *Engine::fc(const Function *f) {
    auto it = fcs.find(f); if (it != fcs.end()) return it->second;
    FuncCode *c = new FuncCode; c->F = f; c->name = f->getName().str(); c->dname = llvm::demangle(c->name); c->vararg = f->isVarArg();
    if (auto *sp = f->getSubprogram()) { c->file = sp->getFilename().str(); c->line = sp->getLine(); }
    fnIds[f] = fnById.size(); fnById.push_back(c); fcs[f] = c; return c;
}
int Engine::tiId(const GlobalVariable *g) { auto it = tiIds.find(g); if (it != tiIds.end()) return it->second; int id = tiIds.size() + 1; tiIds[g] = id; tiById[id] = g; return id; }

void Engine::decode(FuncCode *fcx) {
    fcx->decoded = true; const Function *F = fcx->F; DenseMap<const Value *, int32_t> slot; uint32_t next = 0;
    for (auto &A : F->args()) { unsigned n = layout(A.getType())->l.size(); slot[&A] = next; fcx->argSlots.push_back({(int)next, (int)n}); next += n; }
    fcx->fixedArgSlots = next;
    for (auto &B : *F) for (auto &I : B) { unsigned n = layout(I.getType())->l.size(); if (n) { slot[&I] = next; next += n; } }
    uint32_t tmpBase = next; (void)tmpBase;
    auto op = [&](const Value *v) -> int32_t {
        auto it = slot.find(v); if (it != slot.end()) return it->second;
        if (auto *c = dyn_cast<Constant>(v)) { std::vector<SV> o; flattenConst(c, o); if (o.empty()) o.push_back(SV()); return addConst(o.data(), o.size()); }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { SV z; return addConst(&z, 1); }
        fprintf(stderr, "fsx: operand?\n"); SV z; return addConst(&z, 1);
    };
    DenseMap<const BasicBlock *, uint32_t> bbpc; std::vector<std::pair<uint32_t, std::pair<const BasicBlock *, const BasicBlock *>>> pend; // edges to fix
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> uint32_t { uint32_t id = edges.size(); edges.push_back(Edge()); pend.push_back({id, {from, to}}); return id; };
    auto cmpK = [](CmpInst::Predicate p, Kind &k, bool &swap, bool &neg) { swap = neg = false;
        switch (p) { case CmpInst::ICMP_EQ: k = K_EQ; break; case CmpInst::ICMP_NE: k = K_EQ; neg = true; break; case CmpInst::ICMP_ULT: k = K_ULT; break; case CmpInst::ICMP_ULE: k = K_ULE; break; case CmpInst::ICMP_UGT: k = K_ULT; swap = true; break; case CmpInst::ICMP_UGE: k = K_ULE; swap = true; break;
        case CmpInst::ICMP_SLT: k = K_SLT; break; case CmpInst::ICMP_SLE: k = K_SLE; break; case CmpInst::ICMP_SGT: k = K_SLT; swap = true; break; case CmpInst::ICMP_SGE: k = K_SLE; swap = true; break; default: abort(); } };
    for (auto &B : *F) {
        bbpc[&B] = fcx->code.size();
        for (auto &I : B) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Inst n; n.I = &I; Type *T = I.getType(); Layout *L = layout(T); n.n = L->l.size(); if (slot.count(&I)) n.dst = slot[&I]; if (L->l.size()) n.w = L->l[0].w;
            auto unsup = [&]() { n.op = O_UNSUP; };
            Type *ET = T->isVectorTy() ? cast<VectorType>(T)->getElementType() : T;
            if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                n.a = op(bo->getOperand(0)); n.b = op(bo->getOperand(1)); n.op = O_BIN;
                switch (bo->getOpcode()) {
                case Instruction::Add: n.k = K_ADD; break; case Instruction::Sub: n.k = K_SUB; break; case Instruction::Mul: n.k = K_MUL; break; case Instruction::UDiv: n.k = K_UDIV; break; case Instruction::SDiv: n.k = K_SDIV; break; case Instruction::URem: n.k = K_UREM; break; case Instruction::SRem: n.k = K_SREM; break;
                case Instruction::And: n.k = K_AND; break; case Instruction::Or: n.k = K_OR; break; case Instruction::Xor: n.k = K_XOR; break; case Instruction::Shl: n.k = K_SHL; break; case Instruction::LShr: n.k = K_LSHR; break; case Instruction::AShr: n.k = K_ASHR; break;
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: n.op = O_FBIN; n.k = bo->getOpcode() == Instruction::FAdd ? 0 : bo->getOpcode() == Instruction::FSub ? 1 : bo->getOpcode() == Instruction::FMul ? 2 : bo->getOpcode() == Instruction::FDiv ? 3 : 4; break;
                default: unsup();
                }
                if (n.op == O_BIN && L->wide) n.op = O_WBIN;
            } else if (auto *c = dyn_cast<ICmpInst>(&I)) {
                Kind k; bool sw, ng; cmpK(c->getPredicate(), k, sw, ng); n.op = O_CMP; n.k = k; n.fl = ng; n.a = op(c->getOperand(sw)); n.b = op(c->getOperand(!sw)); Layout *OL = layout(c->getOperand(0)->getType()); n.w = OL->l[0].w; if (OL->wide) n.op = O_WCMP;
            } else if (auto *c = dyn_cast<FCmpInst>(&I)) { n.op = O_FCMP; n.k = c->getPredicate(); n.a = op(c->getOperand(0)); n.b = op(c->getOperand(1)); n.w = layout(c->getOperand(0)->getType())->l[0].w;
            } else if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I)) {
                Layout *S = layout(I.getOperand(0)->getType()); n.a = op(I.getOperand(0)); n.w2 = S->l[0].w; n.op = isa<ZExtInst>(I) ? O_ZEXT : isa<SExtInst>(I) ? O_SEXT : O_TRUNC;
                if (L->wide || S->wide) { if (isa<TruncInst>(I) && !L->wide) { n.op = O_TRUNC; n.w2 = 64; if (n.w == 64) n.op = O_MOVE; } else if (isa<TruncInst>(I)) unsup(); else { n.op = O_WZEXT; n.k = isa<SExtInst>(I); n.w2 = I.getOperand(0)->getType()->getIntegerBitWidth(); if (S->wide) n.op = O_MOVE, n.n = 2; } }
            } else if (isa<FPExtInst>(I) || isa<FPTruncInst>(I) || isa<FPToUIInst>(I) || isa<FPToSIInst>(I) || isa<UIToFPInst>(I) || isa<SIToFPInst>(I)) { n.op = O_FCAST; n.k = I.getOpcode() & 0xff; n.x = I.getOpcode(); n.a = op(I.getOperand(0)); n.w2 = layout(I.getOperand(0)->getType())->l[0].w;
            } else if (isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) { Layout *S = layout(I.getOperand(0)->getType()); n.a = op(I.getOperand(0)); n.w2 = S->l[0].w; n.op = n.w == n.w2 ? O_MOVE : n.w > n.w2 ? O_ZEXT : O_TRUNC;
            } else if (isa<BitCastInst>(I) || isa<AddrSpaceCastInst>(I)) { Layout *S = layout(I.getOperand(0)->getType()); n.a = op(I.getOperand(0)); n.w2 = S->l[0].w; n.x = S->l.size(); n.op = (S->l.size() == n.n && n.w == n.w2) ? O_MOVE : O_BITCAST;
            } else if (isa<FreezeInst>(I)) { n.op = O_MOVE; n.a = op(I.getOperand(0));
            } else if (auto *s = dyn_cast<SelectInst>(&I)) { n.op = O_SELECT; n.a = op(s->getCondition()); n.b = op(s->getTrueValue()); n.c = op(s->getFalseValue()); n.fl = s->getCondition()->getType()->isVectorTy(); n.x = layoutIdx[L];
            } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                n.op = O_MOVE; Type *t = ev->getAggregateOperand()->getType(); unsigned off = 0;
                for (unsigned ix : ev->indices()) { if (auto *stt = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += layout(stt->getElementType(i))->l.size(); t = stt->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * layout(at->getElementType())->l.size(); t = at->getElementType(); } }
                int32_t b = op(ev->getAggregateOperand()); n.a = b >= 0 ? b + (int)off : b - (int)off;
            } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                n.op = O_INSERT; Type *t = iv->getAggregateOperand()->getType(); unsigned off = 0;
                for (unsigned ix : iv->indices()) { if (auto *stt = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += layout(stt->getElementType(i))->l.size(); t = stt->getElementType(ix); } else { auto *at = cast<ArrayType>(t); off += ix * layout(at->getElementType())->l.size(); t = at->getElementType(); } }
                n.a = op(iv->getAggregateOperand()); n.b = op(iv->getInsertedValueOperand()); n.x = off; n.y = layout(iv->getInsertedValueOperand()->getType())->l.size();
            } else if (auto *ld = dyn_cast<LoadInst>(&I)) { n.op = O_LOAD; n.a = op(ld->getPointerOperand()); n.x = layoutIdx[L]; n.fl = ld->isAtomic();
            } else if (auto *s = dyn_cast<StoreInst>(&I)) { n.op = O_STORE; Layout *S = layout(s->getValueOperand()->getType()); n.n = S->l.size(); if (n.n) n.w = S->l[0].w; n.a = op(s->getValueOperand()); n.b = op(s->getPointerOperand()); n.x = layoutIdx[S]; n.fl = s->isAtomic();
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) { n.op = O_ALLOCA; n.x = DL->getTypeAllocSize(al->getAllocatedType()); n.a = op(al->getArraySize());
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                if (T->isVectorTy()) unsup(); else {
                n.op = O_GEP; n.a = op(g->getPointerOperand()); GepInfo gi; MapVector<Value *, APInt> vo; APInt co(64, 0); if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) unsup();
                gi.off = co.getSExtValue(); for (auto &p : vo) gi.t.push_back({op(p.first), p.second.getSExtValue(), (uint8_t)p.first->getType()->getIntegerBitWidth()}); n.x = geps.size(); geps.push_back(gi); }
            } else if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { n.op = O_BR; n.x = edge(&B, b->getSuccessor(0)); } else { n.op = O_CONDBR; n.a = op(b->getCondition()); n.x = edge(&B, b->getSuccessor(0)); n.y = edge(&B, b->getSuccessor(1)); }
            } else if (auto *s = dyn_cast<SwitchInst>(&I)) { n.op = O_SWITCH; n.a = op(s->getCondition()); n.w = layout(s->getCondition()->getType())->l[0].w; SwitchInfo si; std::map<const BasicBlock *, uint32_t> ed; auto ge = [&](const BasicBlock *t) { auto it = ed.find(t); if (it != ed.end()) return it->second; return ed[t] = edge(&B, t); }; for (auto &cs : s->cases()) si.cases.push_back({cs.getCaseValue()->getZExtValue(), ge(cs.getCaseSuccessor())}); si.def = ge(s->getDefaultDest()); n.x = switches.size(); switches.push_back(si);
            } else if (auto *r = dyn_cast<ReturnInst>(&I)) { n.op = O_RET; n.n = 0; if (r->getReturnValue()) { n.a = op(r->getReturnValue()); n.n = layout(r->getReturnValue()->getType())->l.size(); }
            } else if (isa<UnreachableInst>(I)) n.op = O_UNREACHABLE;
            else if (auto *lp = dyn_cast<LandingPadInst>(&I)) { n.op = O_LPAD; LPInfo li; li.cleanup = lp->isCleanup(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) li.cl.push_back({false, dyn_cast<GlobalVariable>(lp->getClause(i)->stripPointerCasts())}); else li.cl.push_back({true, nullptr}); } n.x = lpads.size(); lpads.push_back(li);
            } else if (auto *r = dyn_cast<ResumeInst>(&I)) { n.op = O_RESUME; n.a = op(r->getValue());
            } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { n.op = O_SHUFFLE; n.a = op(sv->getOperand(0)); n.b = op(sv->getOperand(1)); n.y = layout(sv->getOperand(0)->getType())->l.size(); n.x = shuffles.size(); std::vector<int> m; for (int i : sv->getShuffleMask()) m.push_back(i); shuffles.push_back(m);
            } else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) { n.op = O_EXTRACTEL; n.a = op(ee->getVectorOperand()); n.b = op(ee->getIndexOperand()); n.x = layout(ee->getVectorOperand()->getType())->l.size();
            } else if (auto *ie = dyn_cast<InsertElementInst>(&I)) { n.op = O_INSERTEL; n.a = op(ie->getOperand(0)); n.b = op(ie->getOperand(1)); n.c = op(ie->getOperand(2));
            } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { n.op = O_ATOMICRMW; n.a = op(rm->getPointerOperand()); n.b = op(rm->getValOperand()); n.k = rm->getOperation();
            } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { n.op = O_CMPXCHG; n.a = op(cx->getPointerOperand()); n.b = op(cx->getCompareOperand()); n.c = op(cx->getNewValOperand()); n.w = layout(cx->getCompareOperand()->getType())->l[0].w;
            } else if (isa<FenceInst>(I)) n.op = O_NOP;
            else if (isa<UnaryOperator>(I)) { n.op = O_FNEG; n.a = op(I.getOperand(0));
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                n.op = O_CALL; CallInfo *ci = new CallInfo; ci->retSlots = n.n; ci->w = n.w;
                const Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (cb->isInlineAsm()) { ci->name = "asm"; ci->bi = nullptr; ci->fn = nullptr; }
                else if (auto *cf = dyn_cast<Function>(cv)) {
                    ci->name = cf->getName().str(); ci->iid = cf->getIntrinsicID();
                    if (!ci->iid) { auto it = builtins.find(ci->name); if (it != builtins.end()) ci->bi = it->second; else if (!cf->isDeclaration()) ci->fn = fc(cf); }
                    else { if (cb->arg_size() && cb->getArgOperand(0)->getType()->isVectorTy()) ci->vn = layout(cb->getArgOperand(0)->getType())->l.size(); 
                        if (cb->arg_size() && layout(cb->getArgOperand(0)->getType())->l.size()) ci->w = layout(cb->getArgOperand(0)->getType())->l[0].w; }
                    if (ci->iid == Intrinsic::lifetime_start || ci->iid == Intrinsic::lifetime_end || ci->iid == Intrinsic::assume || ci->iid == Intrinsic::experimental_noalias_scope_decl || ci->iid == Intrinsic::invariant_start || ci->iid == Intrinsic::invariant_end || ci->iid == Intrinsic::prefetch || ci->iid == Intrinsic::donothing || ci->iid == Intrinsic::x86_sse2_pause || ci->iid == Intrinsic::var_annotation) { n.op = O_NOP; fcx->code.push_back(n); continue; }
                } else { ci->indirect = true; ci->callee = op(cb->getCalledOperand()); }
                for (unsigned i = 0; i < cb->arg_size(); i++) { const Value *av = cb->getArgOperand(i); ArgD d; d.n = layout(av->getType())->l.size(); d.op = d.n || isa<Constant>(av) ? op(av) : 0; if (av->getType()->isMetadataTy()) d.n = 0; d.byval = 0; if (cb->isByValArgument(i)) d.byval = DL->getTypeAllocSize(cb->getParamByValType(i)); ci->args.push_back(d); ci->nargSlots += d.n; }
                if (auto *iv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; ci->eNormal = edge(&B, iv->getNormalDest()); ci->eUnwind = edge(&B, iv->getUnwindDest()); }
                n.x = calls.size(); calls.push_back(ci);
            } else unsup();
            (void)ET; fcx->code.push_back(n);
        }
    }
    for (auto &p : pend) {
        Edge &e = edges[p.first]; e.target = bbpc[p.second.second];
        for (auto &I : *p.second.second) { auto *ph = dyn_cast<PHINode>(&I); if (!ph) break; int bi = ph->getBasicBlockIndex(p.second.first); if (bi < 0) continue; const Value *v = ph->getIncomingValue(bi); if (isa<UndefValue>(v)) continue; int32_t o = op(v); unsigned k = layout(ph->getType())->l.size(); for (unsigned i = 0; i < k; i++) e.mv.push_back({slot[ph] + (int)i, o >= 0 ? o + (int)i : o - (int)i}); }
    }
    fcx->nregs = next;
}
} // namespace fsx
