// operations of the interpreter (members of World)
struct Plan { enum K : uint8_t { NONE, ALLOC, BOOM, BOOM_DERIVED, CB } k = NONE; int n = 1; bool boom() const { return k == BOOM || k == BOOM_DERIVED; } };

Plan plan_from(uint8_t b, bool can_boom) {
    Plan p;
    if (!opt.faults) return p;
    switch (b % 16) {
    case 6: case 7: case 8: p.k = Plan::ALLOC; p.n = 1; break;
    case 9: p.k = Plan::ALLOC; p.n = 2; break;
    case 10: p.k = Plan::ALLOC; p.n = 3; break;
    case 11: case 12: if (can_boom) { p.k = Plan::BOOM; } break;
    case 13: if (can_boom) { p.k = Plan::BOOM_DERIVED; } break;
    case 14: case 15: if (P::cb_can_throw_policy) p.k = Plan::CB; break;
    default: break;
    }
    return p;
}

// run the creation f; if a failure was injected, everything must be as before except what g describes for the model
template <typename F, typename G> bool create_op(bool counted, Plan pl, F f, G g) {
    int tag = counted ? ++next_owner : 0;
    if constexpr (P::is_ref) {
        bool t = pl.boom();
        if (ctx.replay_threw) {
            if (ctx.threw.size() >= ctx.replay_threw->size()) t = false;
            else t = (*ctx.replay_threw)[ctx.threw.size()];
        }
        ctx.threw.push_back(t);
        L(T_THREW, t);
        bool oldc = ref::counting;
        ref::counting = counted;
        if (pl.boom()) { try { f(); } catch (Boom&) {} }
        else if (t) g();
        else f();
        ref::counting = oldc;
        return !t;
    }
    else {
        size_t sl = ctx.threw.size();
        ctx.threw.push_back(0);
        size_t logpos = ctx.log.size();
        L(T_THREW, 0);
        auto& st = track::st;
        int otag = st.tag, ofail = st.fail_in;
        bool ofired = st.fired;
        st.tag = tag; st.fired = false; st.fail_in = pl.k == Plan::ALLOC ? pl.n : 0;
        if (pl.k == Plan::CB) P::arm_cb(true);
        bool threw = false;
        try { f(); }
        catch (Boom&) { threw = true; }
        catch (std::bad_alloc&) { threw = true; }
        bool fired = st.fired;
        if (pl.k == Plan::CB && !P::arm_cb(false)) fired = true;
        st.tag = otag; st.fail_in = ofail; st.fired = ofired;
        if (threw && !fired && !pl.boom()) eng::fail("%s: an exception without cause (op %u)", P::name, cur_op);
        if (!threw && fired) eng::fail("%s: a failed %s is not reported to the caller (op %u)", P::name, pl.k == Plan::CB ? "control block constructor" : "allocation", cur_op);
        if (!threw && pl.boom()) eng::fail("%s: the exception of a constructor is lost (op %u)", P::name, cur_op);
        if (fired) (pl.k == Plan::CB ? ctx.c_cb_throw : ctx.c_fault) = true;
        if (threw && pl.boom()) ctx.c_ctor_throw = true;
        ctx.threw[sl] = threw;
        ctx.log[logpos].val = threw;
        return !threw;
    }
}

template <typename U> void fin_ext(U* p) { int i = id_of(p); if (i >= 0) reg[size_t(i)].ext = true; }

template <typename U> static constexpr bool is_esf_kind() { using V = std::remove_cv_t<U>; return std::is_same_v<V, EsfObj<P>> || std::is_same_v<V, EsftObj<P>>; }

template <typename U, typename D> void make_into(const uint8_t* op, S<D>& dst) {
    Init in = init_from(op);
    uint8_t route = op[2] % 13, form = op[3] & 3;
    bool make_route = route == 0 || route == 8 || route == 12;
    Plan pl = plan_from(uint8_t(op[3] >> 2), make_route);
    if (pl.k == Plan::BOOM) in.boom = true;
    if (pl.k == Plan::BOOM_DERIVED) { if (std::is_same_v<std::remove_cv_t<U>, O>) { pl.k = Plan::BOOM; in.boom = true; } else in.boom_derived = true; }
    auto install = [&](S<D>&& t) {
        switch (form) {
        case 0: case 1: dst = std::move(t); break;
        case 2: dst.swap(t); break;
        default: cpy(dst, t); break;
        }
    };
    using UP = typename P::template uptr<U>;
    using UPD = typename P::template uptr<U, Del<P>>;
    using UPR = typename P::template uptr<U, Del<P>&>;
    using FD = std::conditional_t<std::is_const_v<U>, void (*)(CO*), void (*)(O*)>;
    using UPF = typename P::template uptr<U, FD>;
    FD fn;
    if constexpr (std::is_const_v<U>) fn = fn_del_c<P>; else fn = fn_del<P>;
    Del<P> d(int(next_owner + 1), 0);
    // sometimes the pointer which will own the object points at it before, as an alias of what it owns
    auto points_already = [&](U* p) {
        if (form != 1 || pl.k != Plan::NONE || (op[7] >> 5) != 3 || P::none(dst)) return;
        dst = P::aliased(dst, static_cast<D*>(p));
        ctx.c_same_address = true;
    };
    S<D> t;
    bool ok = false;
    switch (route) {
    case 0: ok = create_op(true, pl, [&] { t = P::template make<U>(in); }, [] {}); break;
    case 12: ok = create_op(true, pl, [&] { pending = in; t = P::template make_ow<U>(); }, [] {}); break;
    case 1: {
        U* p = new U(in);
        points_already(p);
        if (form == 1) { create_op(true, pl, [&] { dst.reset(p); }, [&] { delete p; }); return; }
        ok = create_op(true, pl, [&] { t = S<D>(p); }, [&] { delete p; });
        break;
    }
    case 2: case 10: {
        U* p = new U(in);
        points_already(p);
        if (form == 1) { create_op(true, pl, [&] { dst.reset(p, d); }, [&] { d(p); }); return; }
        ok = create_op(true, pl, [&] { S<D> x(p, d); t.swap(x); }, [&] { d(p); });
        break;
    }
    case 3: {
        U* p = new U(in);
        points_already(p);
        if (form == 1) { create_op(true, pl, [&] { dst.reset(p, fn); }, [&] { fn(p); }); return; }
        ok = create_op(true, pl, [&] { t = S<D>(p, fn); }, [&] { fn(p); });
        break;
    }
    case 4: {
        UP u(new U(in));
        points_already(u.get());
        if (form == 1) ok = create_op(true, pl, [&] { dst = std::move(u); }, [] {});
        else ok = create_op(true, pl, [&] { t = S<D>(std::move(u)); }, [] {});
        L(T_UPTR, norm(u.get()));
        if (form == 1) return;
        break;
    }
    case 5: {
        UPD u(new U(in), d);
        points_already(u.get());
        if (form == 1) ok = create_op(true, pl, [&] { dst = std::move(u); }, [] {});
        else ok = create_op(true, pl, [&] { t = S<D>(std::move(u)); }, [] {});
        L(T_UPTR, norm(u.get()));
        if (!ok) L(T_DELID, uint64_t(u.get_deleter().id));
        if (form == 1) return;
        break;
    }
    case 6: {
        Del<P>& rd = *refdel[op[3] >> 7];
        UPR u(new U(in), rd);
        points_already(u.get());
        if (form == 1) ok = create_op(true, pl, [&] { dst = std::move(u); }, [] {});
        else ok = create_op(true, pl, [&] { t = S<D>(std::move(u)); }, [] {});
        L(T_UPTR, norm(u.get()));
        L(T_DELID, uint64_t(rd.id));
        if (form == 1) return;
        break;
    }
    case 7: {
        // the deleter leaves the object alone
        if (reg.size() > 40) return;
        U* p = new U(in);
        fin_ext(p);
        d.mode = 1;
        ok = create_op(!is_esf_kind<U>(), pl, [&] { S<D> x(p, d); t.swap(x); }, [&] { d(p); });
        break;
    }
    case 8: ok = create_op(true, pl, [&] { t = P::template make_alloc<U>(TA<char>(&arena[op[3] >> 7]), in); }, [] {}); break;
    case 9: {
        UPD u(new U(in), d);
        ok = create_op(true, pl, [&] { t = P::template adopt_alloc<U>(std::move(u), TA<char>(&arena[op[3] >> 7])); }, [] {});
        L(T_UPTR, norm(u.get()));
        break;
    }
    default: {
        UPF u(new U(in), fn);
        if (form == 1) ok = create_op(true, pl, [&] { dst = std::move(u); }, [] {});
        else ok = create_op(true, pl, [&] { t = S<D>(std::move(u)); }, [] {});
        L(T_UPTR, norm(u.get()));
        if (form == 1) return;
        break;
    }
    }
    if (ok) install(std::move(t));
}

void do_make(const uint8_t* op) {
    if (reg.size() > 120) return;
    auto go = [&](auto ty) {
        using U = typename decltype(ty)::type;
        constexpr bool esf_kind = is_esf_kind<U>();
        if constexpr (esf_kind || std::is_same_v<U, O>) { // objects which are const from the start
            if ((op[1] >> 4) == 9 || (esf_kind && (op[1] >> 4) == 14)) {
                if constexpr (esf_kind) { if (op[1] & 1) return make_into<const U, const void>(op, slot<const void>(op[1])); }
                return make_into<const U, CO>(op, slot<CO>(op[1]));
            }
        }
        switch ((op[1] >> 4) % 5) {
        case 0: case 1: return make_into<U, O>(op, place(op[1]));
        case 2: if constexpr (std::is_same_v<U, O>) return make_into<U, CO>(op, slot<CO>(op[1])); else return make_into<U, U>(op, slot<U>(op[1]));
        case 3: if constexpr (std::is_same_v<U, Multi<P>>) return make_into<U, PolyPad>(op, slot<PolyPad>(op[1])); else return make_into<U, O>(op, slot<O>(op[1]));
        default: if constexpr (std::is_same_v<U, Child<P>> || std::is_same_v<U, EsfObj<P>>) return make_into<U, CO>(op, slot<CO>(op[1])); else return make_into<U, void>(op, slot<void>(op[1]));
        }
    };
    switch (op[4] >> 4) {
    case 0: case 1: case 2: case 3: case 4: case 5: return go(Ty<O>{});
    case 6: case 7: return go(Ty<Child<P>>{});
    case 8: case 9: return go(Ty<Multi<P>>{});
    case 10: case 11: return go(Ty<Virt<P>>{});
    case 12: case 13: return go(Ty<EsfObj<P>>{});
    default: return go(Ty<EsftObj<P>>{});
    }
}

// the copy assignment of libstdc++ is not made for destructors which act on its target: go through a temporary there
template <typename D, typename Sx> static void cpy(S<D>& d, const S<Sx>& s) {
    if constexpr (P::is_std) d = S<D>(s);
    else d = s;
}
template <typename D, typename Sx> void copy_form(S<D>& d, const S<Sx>& s, uint8_t form) {
    switch (form % 5) {
    case 0: case 1: cpy(d, s); break;
    case 2: { S<D> t(s); d = std::move(t); break; }
    case 3: { S<D> t(s); d.swap(t); break; }
    default: { S<D> t; t = s; cpy(d, t); break; }
    }
}
template <typename D, typename Sx> void move_form(S<D>& d, S<Sx>& s, uint8_t form) {
    switch (form % 5) {
    case 0: case 1: d = std::move(s); break;
    case 2: { S<D> t(std::move(s)); d = std::move(t); break; }
    case 3: { S<D> t(std::move(s)); d.swap(t); break; }
    default: { S<D> t; t = std::move(s); cpy(d, t); break; }
    }
}
// COPY/MOVE dst=op[1] type op[3], src=op[2] type op[4]
template <typename F> void typed_pair(const uint8_t* op, F f) {
    bool seek = op[7] & 3;
    with_type(seek_type(op[4], seek), [&](auto sty) {
        using Sx = typename decltype(sty)::type;
        bool done = false;
        with_type(op[3], [&](auto dty) {
            using D = typename decltype(dty)::type;
            if constexpr (convertible<Sx, D>()) {
                done = true;
                ctx.c_conv = true;
                f(slot<D>(op[1]), ssrc<Sx>(op[2], seek));
            }
        });
        if (!done) f(slot<Sx>(op[1]), ssrc<Sx>(op[2], seek));
    });
}
template <typename D, typename Sx> void wcopy_form(W<D>& d, const W<Sx>& s, uint8_t form) {
    switch (form % 4) {
    case 0: d = s; break;
    case 1: { W<D> t(s); d = std::move(t); break; }
    case 2: { W<D> t(s); d.swap(t); break; }
    default: { W<D> t; t = s; d = t; break; }
    }
}
template <typename D, typename Sx> void wmove_form(W<D>& d, W<Sx>& s, uint8_t form) {
    switch (form % 4) {
    case 0: d = std::move(s); break;
    case 1: { W<D> t(std::move(s)); d = std::move(t); break; }
    case 2: { W<D> t(std::move(s)); d.swap(t); break; }
    default: { W<D> t; t = std::move(s); d = t; break; }
    }
}
template <typename Sx, typename D> static constexpr bool wconvertible() {
    if constexpr (std::is_same_v<Sx, D> || std::is_array_v<Sx> || std::is_array_v<D>) return false;
    else if constexpr (std::is_same_v<Sx, int> || std::is_same_v<Sx, NV>) return false;
    else return std::is_convertible_v<Sx*, D*>;
}
template <typename F> void wtyped_pair(const uint8_t* op, F f) {
    bool seek = op[7] & 3;
    with_wtype(seek_wtype(op[4], seek), [&](auto sty) {
        using Sx = typename decltype(sty)::type;
        bool done = false;
        with_wtype(op[3], [&](auto dty) {
            using D = typename decltype(dty)::type;
            if constexpr (wconvertible<Sx, D>()) {
                done = true;
                ctx.c_conv = true;
                auto& s = wsrc<Sx>(op[2], seek);
                if (std::is_same_v<Sx, Virt<P>> && s.expired()) ctx.c_virt = true;
                f(wslot<D>(op[1]), s);
            }
        });
        if (!done) f(wslot<Sx>(op[1]), wsrc<Sx>(op[2], seek));
    });
}

void do_cast(const uint8_t* op) {
    uint8_t a = op[1], b = op[2];
    bool seek = op[7] & 3;
    S<O>& src = ssrc<O>(b, seek);
    uint8_t k = kind_of(src.get());
    ctx.c_cast = true;
    uint8_t how = op[3] % 22;
    if (op[7] & 4 && how < 16) switch (k) { // a cast to what the object is
    case K_CHILD: how = (how & 1) ? 0 : 7; break;
    case K_MULTI: how = (how & 3) == 0 ? 1 : (how & 3) == 1 ? 10 : 9; break;
    case K_VIRT: how = 12; break;
    case K_ESF: how = 15; break;
    default: break;
    }
    switch (how) {
    case 0: if (!src || k == K_CHILD) slot<Child<P>>(a) = P::template scast<Child<P>>(src); break;
    case 1: if (!src || k == K_MULTI) slot<Multi<P>>(a) = P::template scast<Multi<P>>(src); break;
    case 2: place(a) = P::template scast<O>(ssrc<Child<P>>(b, seek)); break;
    case 3: place(a) = P::template ccast<O>(ssrc<CO>(b, seek)); break;
    case 4: slot<CO>(a) = P::template ccast<CO>(src); break;
    case 5: {
        auto& v = ssrc<void>(b, seek);
        bool okc = !v;
        for (auto& r : reg) if (r.alive && (r.kind == K_OBJ || r.kind == K_CHILD) && static_cast<const void*>(r.o) == v.get()) okc = true;
        if (okc) place(a) = (op[4] & 1) ? P::template scast<O>(v) : P::template rcast<O>(v);
        break;
    }
    case 6: place(a) = P::template dcast<O>(ssrc<PolyPad>(b, seek)); break;
    case 7: case 8: slot<Child<P>>(a) = P::template dcast<Child<P>>(src); break;
    case 9: slot<Multi<P>>(a) = P::template dcast<Multi<P>>(src); break;
    case 10: slot<PolyPad>(a) = P::template dcast<PolyPad>(src); break;
    case 11: slot<Multi<P>>(a) = P::template dcast<Multi<P>>(ssrc<PolyPad>(b, seek)); break;
    case 12: slot<Virt<P>>(a) = P::template dcast<Virt<P>>(src); break;
    case 13: {
        auto c = P::template rcast<char>(src);
        if (static_cast<const void*>(c.get()) != static_cast<const void*>(src.get())) eng::fail("%s: reinterpret_pointer_cast changes the address", P::name);
        L(T_USE, uint64_t(c.use_count()));
        L(T_SAME, P::same(c, src));
        L(T_BOOL, bool(c));
        break;
    }
    case 14: place(a) = P::template scast<O>(ssrc<Multi<P>>(b, seek)); break;
    // to what the whole object is
    case 16: slot<void>(a) = P::template dcast<void>(src); break;
    case 17: slot<void>(a) = P::template dcast<void>(ssrc<PolyPad>(b, seek)); break;
    case 18: slot<const void>(a) = P::template dcast<const void>(ssrc<PolyPad>(b, seek)); break;
    case 19: slot<const void>(a) = P::template dcast<const void>(ssrc<CO>(b, seek)); break;
    case 20: slot<void>(a) = P::template scast<void>(src); break;
    case 21: slot<const void>(a) = P::template scast<const void>(ssrc<PolyPad>(b, seek)); break;
    default: slot<EsfObj<P>>(a) = P::template dcast<EsfObj<P>>(src); break;
    }
}

int* int_target(const S<O>& s, uint8_t k) {
    if (!s || id_of(s.get()) < 0) return &statics[k & 3];
    return (k & 3) == 3 ? &s->val : &s->arr[k & 3];
}

void do_alias(const uint8_t* op) {
    ctx.c_alias = true;
    bool seek = op[7] & 3;
    S<O>& src = ssrc<O>(op[2], seek);
    S<int>& d = slot<int>(op[1]);
    switch (op[3] % 8) {
    case 6: // an owner with no address
        with_type(op[4], [&](auto dty) {
            using D = typename decltype(dty)::type;
            if constexpr (!std::is_array_v<D>) {
                if (op[5] & 1) { if (op[5] & 2) slot<D>(op[1]) = P::aliased(src, static_cast<D*>(nullptr)); else slot<D>(op[1]) = S<D>(src, static_cast<D*>(nullptr)); }
                else { auto& v = ssrc<void>(op[2], seek); if (op[5] & 2) slot<D>(op[1]) = P::aliased(v, static_cast<D*>(nullptr)); else slot<D>(op[1]) = S<D>(v, static_cast<D*>(nullptr)); }
            }
        });
        break;
    case 7: { // the address of an object which has another owner, or none
        int n = 0;
        for (auto& r : reg) if (r.alive && r.ext) ++n;
        if (!n || P::none(src)) break;
        int k = op[4] % n;
        for (size_t i = 0; i < reg.size(); ++i) if (reg[i].alive && reg[i].ext && !k--) {
            O* x = reg[i].o;
            if (op[5] & 1) place(op[1]) = S<O>(src, x);
            else place(op[1]) = P::aliased(src, x);
            break;
        }
        break;
    }
    case 0: d = S<int>(src, int_target(src, op[4])); break;
    case 1: d = P::aliased(src, int_target(src, op[4])); break;
    case 2: { auto& m = ssrc<Multi<P>>(op[2], seek); if (m) { slot<Vec>(op[1]) = (op[4] & 1) ? S<Vec>(m, static_cast<Vec*>(m.get())) : P::aliased(m, static_cast<Vec*>(m.get())); } break; }
    case 3: { auto& i = ssrc<int>(op[2], seek); d = (op[4] & 4) ? P::aliased(i, &statics[op[4] & 3]) : S<int>(i, &statics[op[4] & 3]); break; }
    case 4: { auto& v = ssrc<void>(op[2], seek); d = (op[4] & 4) ? P::aliased(v, &statics[op[4] & 3]) : S<int>(v, &statics[op[4] & 3]); break; }
    default: { auto& c = ssrc<Child<P>>(op[2], seek); place(op[1]) = (op[4] & 1) ? P::aliased(c, static_cast<O*>(c.get())) : S<O>(c, static_cast<O*>(c.get())); break; }
    }
}

void do_wfrom(const uint8_t* op) {
    bool seek = op[7] & 3;
    with_type(seek_type(op[4], seek), [&](auto sty) {
        using Sx = typename decltype(sty)::type;
        bool done = false;
        with_wtype(op[3], [&](auto dty) {
            using D = typename decltype(dty)::type;
            if constexpr (wconvertible<Sx, D>()) {
                done = true;
                auto& s = ssrc<Sx>(op[2], seek); auto& w = wslot<D>(op[1]);
                if (op[5] & 1) w = s; else { W<D> t(s); w = std::move(t); }
            }
        });
        if constexpr (!std::is_same_v<Sx, Multi<P>> && !std::is_same_v<Sx, Vec>) if (!done) {
            auto& s = ssrc<Sx>(op[2], seek); auto& w = wslot<Sx>(op[1]);
            if (op[5] & 1) w = s; else { W<Sx> t(s); w.swap(t); }
        }
    });
}
void do_lock(const uint8_t* op) {
    bool seek = op[7] & 3;
    with_wtype(seek_wtype(op[3], seek), [&](auto ty) {
        using T = typename decltype(ty)::type;
        auto& w = wsrc<T>(op[2], seek);
        auto s = w.lock();
        L(T_LOCKED, norm(s.get()));
        L(T_USE, uint64_t(s.use_count()));
        if (s) ctx.c_lock_ok = true; else if (w.expired()) ctx.c_lock_null = true;
        if (s) L(T_SAME, P::same(s, w));
        if (w.expired() && s) eng::fail("%s: lock() gives a pointer of an expired weak pointer", P::name);
        if (!(op[4] & 3)) return;
        if constexpr (std::is_same_v<T, CO>) { if (op[4] & 4) { slot<CO>(op[1]) = w.lock(); return; } }
        slot<T>(op[1]) = std::move(s);
    });
}
void do_walias(const uint8_t* op) {
    if constexpr (!P::is_std) {
        if (opt.std_common) return;
        ctx.c_alias = true;
        W<int>& d = wslot<int>(op[1]);
        bool seek = op[7] & 3;
        S<O>& s = ssrc<O>(op[2], seek);
        W<O>& w = wsrc<O>(op[2], seek);
        switch (op[3] % 4) {
        case 0: d = W<int>(s, int_target(s, op[4])); break;
        case 1: d = W<int>(w, &statics[op[4] & 3]); break;
        case 2: { auto l = w.lock(); d = W<int>(w, int_target(l, op[4])); break; }
        default: { W<void>& v = wslot<void>(op[2]); d = W<int>(v, &statics[op[4] & 3]); break; }
        }
    }
}

void do_link(const uint8_t* op) {
    S<O>& h = ssrc<O>(op[1] & 3, op[7] & 3);
    switch (op[3] % 6) {
    case 0: case 1: if (h) cpy(h->l[op[4] & 1], place(op[2])); break;
    case 2: case 3: { // push in front
        if (reg.size() > 120) return;
        Init in = init_from(op);
        if (opt.noalloc) return;
        S<O> n;
        if (create_op(true, Plan{}, [&] { n = P::template make<O>(in); }, [] {})) {
            if (op[4] & 4) n->l[op[4] >> 7] = h; else n->l[op[4] >> 7] = std::move(h);
            h = std::move(n);
        }
        break;
    }
    case 4: if (h && !opt.noalloc && reg.size() < 120) { Init in = init_from(op); h->u = typename P::template uptr<O>(new O(in)); } break;
    default: if (h) h->w = (op[4] & 4) ? W<O>(h) : W<O>(place(op[2])); break;
    }
}
void do_advance(const uint8_t* op) {
    S<O>& s = ssrc<O>(op[1], op[7] & 3);
    if (!s || id_of(s.get()) < 0) return;
    ctx.c_advance = true;
    uint8_t k = op[2] & 1;
    switch (op[3] % 10) {
    case 0: case 1: cpy(s, s->l[k]); break;
    case 2: case 3: s = std::move(s->l[k]); break;
    case 4: { S<CO>& c = sco.s[op[2] & 1]; if (c && id_of(c.get()) >= 0) cpy(c, c->l[k]); break; }
    case 5: s.swap(s->l[k]); break;
    case 6: if (!opt.noalloc && s->u) { Plan pl = plan_from(op[4], false); create_op(true, pl, [&] { s = std::move(s->u); }, [] {}); } break;
    case 7: { S<O>& n = s->l[k]; if (n && id_of(n.get()) >= 0) n = (op[4] & 1) ? S<O>(n->l[k]) : S<O>(std::move(n->l[k])); break; }
    case 8: { // by plain assignment inside the list
        S<O>& n = s->l[k];
        if (n && id_of(n.get()) >= 0) { if (op[4] & 1) cpy(n, n->l[op[4] >> 7]); else n = std::move(n->l[op[4] >> 7]); }
        break;
    }
    default: s = s->w.lock(); break;
    }
}
void do_uniq(const uint8_t* op) {
    if (opt.noalloc) return;
    ctx.c_uniq = true;
    auto& u = un[op[1] & 1];
    using UO = typename P::template uptr<O>;
    switch (op[2] % 9) {
    case 0: if (reg.size() < 120) u = UO(new O(init_from(op))); break;
    case 1: if (reg.size() < 120) { typename P::template uptr<Child<P>> c(new Child<P>(init_from(op))); u = std::move(c); L(T_UPTR, norm(c.get())); } break;
    case 2: case 3: if (u) {
        Plan pl = plan_from(op[3], false);
        bool ok;
        S<O>& d = place(op[4]);
        if (op[3] & 1) ok = create_op(true, pl, [&] { d = std::move(u); }, [] {});
        else {
            S<O> t;
            ok = create_op(true, pl, [&] { t = S<O>(std::move(u)); }, [] {});
            if (ok) d = std::move(t);
        }
        break;
    }
    case 4: u.swap(un[1 - (op[1] & 1)]); break;
    case 5: un[1 - (op[1] & 1)] = std::move(u); break;
    case 6: { S<O>& h = so.s[op[4] & 3]; if (h) { if (op[3] & 1) u = std::move(h->u); else h->u = std::move(u); } break; }
    case 7: if (u) { Plan pl = plan_from(op[3], false); S<CO>& d = slot<CO>(op[4]); create_op(true, pl, [&] { d = std::move(u); }, [] {}); } break;
    default: u.reset(); break;
    }
}

template <typename E> void esf_unowned(E& e) {
    // not owned by shared pointers now: everything handed out is null
    L(T_ESF, norm(e.sft().get()));
    const E& ce = e;
    L(T_ESF, norm(ce.csft().get()));
    auto w = e.wft();
    L(T_ESF, uint64_t(w.use_count()));
    L(T_ESF, w.expired());
    L(T_ESF, norm(w.lock().get()));
    auto cw = ce.cwft();
    L(T_ESF, norm(cw.lock().get()));
    if constexpr (std::is_same_v<E, EsfObj<P>>) {
        L(T_ESF, norm(e.sf(&e.val).get()));
        if (!opt.std_common) L(T_ESF, norm(e.wf(&e.val).lock().get()));
    }
    ctx.c_esf_unowned = true;
}
// hands out pointers; e is what a slot or the interpreter points at
template <typename E> void esf_use(E& e, const uint8_t* op, bool raw) {
    ctx.c_esf = true;
    const E& ce = e;
    auto probe = e.sft();
    bool owned = probe.use_count() > 0;
    L(T_ESF, owned);
    obs_ptr(probe);
    probe.reset();
    if (raw && !owned) { esf_unowned(e); return; }
    if (!owned) { esf_unowned(e); return; } // held by an owner which does not know it is one
    switch (op[3] % 10) {
    case 0: {
        auto s = e.sft();
        if constexpr (std::is_same_v<E, EsfObj<P>>) { cpy(slot<void>(op[4]), s); } else { cpy(slot<E>(op[4]), s); }
        break;
    }
    case 1: {
        auto s = ce.csft();
        L(T_USE, uint64_t(s.use_count()));
        slot<const void>(op[4]) = s;
        break;
    }
    case 2: {
        auto w = e.wft();
        if constexpr (std::is_same_v<E, EsfObj<P>>) { wslot<void>(op[4]) = w; } else { wslot<E>(op[4]) = std::move(w); }
        break;
    }
    case 3: { auto w = ce.cwft(); wslot<const void>(op[4]) = w; break; }
    case 4: if constexpr (std::is_same_v<E, EsfObj<P>>) { slot<int>(op[4]) = ce.sf(&e.arr[op[5] % 3]); } break;
    case 5: if constexpr (std::is_same_v<E, EsfObj<P>>) { place(op[4]) = e.sf(static_cast<O*>(&e)); } break;
    case 6: if constexpr (std::is_same_v<E, EsfObj<P>>) { slot<E>(op[4]) = e.sf(&e); } else { place(op[4]) = e.sft(); } break;
    case 7: if constexpr (std::is_same_v<E, EsfObj<P>>) { wslot<int>(op[4]) = ce.wf(&e.val); } break;
    case 8: if constexpr (std::is_same_v<E, EsfObj<P>>) { wslot<E>(op[4]) = ce.wf(&e); } else { wslot<O>(op[4] & 7) = e.wft(); } break;
    default: slot<CO>(op[4]) = [&] { if constexpr (std::is_same_v<E, EsfObj<P>>) return ce.sf(static_cast<const O*>(&ce)); else return ce.csft(); }(); break;
    }
}
template <typename T> void obs_ptr(const S<T>& s) { L(T_PTR, norm(s.get())); L(T_BOOL, bool(s)); L(T_USE, uint64_t(s.use_count())); }

// in the middle of an operation: how many temporary owners it has is up to the library
template <typename T> void obs_mid(const S<T>& s) { L(T_PTR, norm(s.get())); L(T_BOOL, bool(s)); L(T_NONE, P::none(s)); }

void do_esf(const uint8_t* op) {
    auto& e = ses.s[0];
    auto& t = set.s[0];
    switch (op[1] % 8) {
    case 0: case 1: case 2: if (e) { esf_use(*e, op, false); break; } [[fallthrough]];
    case 3: if (t) { esf_use(*t, op, false); break; } [[fallthrough]];
    case 4: { // any object of the kind, wherever it is held
        int n = 0;
        for (auto& r : reg) if (r.alive && (r.esf_raw || r.esft_raw)) ++n;
        if (!n) return;
        int k = op[2] % n;
        for (size_t i = 0; i < reg.size(); ++i) {
            auto& r = reg[i];
            if (!(r.alive && (r.esf_raw || r.esft_raw)) || k--) continue;
            if (r.esf_raw) esf_use(*r.esf_raw, op, true); else esf_use(*r.esft_raw, op, true);
            return;
        }
        break;
    }
    case 5: { // copies have their own identity
        if (opt.noalloc || reg.size() > 120) return;
        if (e && (op[2] & 1)) {
            S<EsfObj<P>> n;
            if (create_op(true, Plan{}, [&] { n = P::template make<EsfObj<P>>(*e); }, [] {})) {
                obs_ptr(n->sft());
                L(T_SAME, P::same(n->sft(), e));
                *n = *e;          // assignment changes no owner
                L(T_SAME, P::same(n->sft(), n));
                if (op[2] & 2) *e = *n;
                if (op[2] & 4) cpy(e, n);
                if (op[2] & 8) cpy(place(op[4]), n);
            }
        }
        if (t && !(op[2] & 1)) {
            S<EsftObj<P>> n;
            if (create_op(true, Plan{}, [&] { n = P::template make<EsftObj<P>>(std::move(*t)); }, [] {})) {
                obs_ptr(n->sft());
                L(T_SAME, P::same(n->sft(), t));
                *n = std::move(*t);
                L(T_SAME, P::same(n->sft(), n));
                if (op[2] & 4) cpy(t, n);
            }
        }
        break;
    }
    case 6: { // an object on its own, never owned by a shared pointer
        if (opt.noalloc || reg.size() > 120) return;
        auto x = new EsfObj<P>(Init{});
        esf_unowned(*x);
        if (e) { *x = *e; esf_unowned(*x); }
        delete x;
        break;
    }
    default: if (e) { S<O> b = e; esf_use(*e, op, false); } break;
    }
}
// objects which outlive their owners
void do_esfraw(const uint8_t* op) {
    int n = 0;
    for (auto& r : reg) if (r.alive && r.ext && (r.esf_raw || r.esft_raw)) ++n;
    if (!n) return;
    int k = op[1] % n;
    for (size_t i = 0; i < reg.size(); ++i) {
        auto& r = reg[i];
        if (!(r.alive && r.ext && (r.esf_raw || r.esft_raw)) || k--) continue;
        auto go = [&](auto* x) {
            using E = std::remove_pointer_t<decltype(x)>;
            bool owned = x->sft().use_count() > 0;
            if (!owned && (op[2] & 1) && !opt.noalloc) {
                // a new owner for an object which has none
                bool really_unowned = true;
                all_strong([&](auto& s) { if (in_range(s.get(), i)) really_unowned = false; });
                for (auto& q : reg) if (q.alive) { for (auto& l : q.o->l) if (l.get() == reg[i].o) really_unowned = false; }
                { auto c = sto->st.load(); if (c.get() == reg[i].o) really_unowned = false; }
                if (!really_unowned) return;
                Del<P> d(1000 + int(i), 1);
                S<E> t;
                if (create_op(false, Plan{}, [&] { t = S<E>(x, d); }, [] {})) {
                    obs_ptr(x->sft());
                    L(T_SAME, P::same(x->sft(), t));
                    slot<E>(op[4]) = std::move(t);
                }
                return;
            }
            esf_use(*x, op, true);
        };
        if (r.esf_raw) go(r.esf_raw); else go(r.esft_raw);
        return;
    }
}
template <typename T> bool in_range(T* p, size_t i) {
    auto c = reinterpret_cast<const char*>(const_cast<const std::remove_cv_t<T>*>(p));
    return c && c >= reg[i].lo && c < reg[i].hi;
}

// std::atomic<std::shared_ptr> takes only the same owner for equal, the others go by the address
bool cas_portable(const S<O>& e) {
#if __cplusplus >= 202000L
    auto c = sto->st.load();
    return c.get() != e.get() || P::same(c, e);
#else
    (void)e;
    return true;
#endif
}

void do_storage(const uint8_t* op) {
    ctx.c_storage = true;
    switch (op[0]) {
    case STORE:
        switch (op[2] % 4) {
        case 0: case 1: sto->st.store(place(op[1])); break;
        case 2: sto->st.store(std::move(place(op[1]))); break;
        default: sto->st.store(nullptr); break;
        }
        break;
    case EXCH: {
        if (op[2] & 1) { auto old = sto->st.exchange(place(op[1])); L(T_PTR, norm(old.get())); place(op[3]) = std::move(old); }
        else if (op[2] & 2) { S<O>& d = so.s[op[3] & 3]; d = sto->st.exchange(std::move(place(op[1]))); }
        else { auto old = sto->st.exchange(place(op[1])); L(T_USE, uint64_t(old.use_count())); }
        break;
    }
    case CAS: {
        bool r = false;
        switch (op[2] % 6) {
        case 0: { S<O>& e = so.s[op[1] & 3]; if (!cas_portable(e)) break; r = sto->st.compare_exchange(e, place(op[3])); break; }
        case 1: { S<O>& e = so.s[op[1] & 3]; S<O> n(place(op[3])); if (!cas_portable(e)) break; r = sto->st.compare_exchange(e, n); L(T_USE, uint64_t(n.use_count())); break; }
        case 2: { S<O> e(place(op[1])); S<O>& d = so.s[op[3] & 3]; if (!cas_portable(e)) break; r = sto->st.compare_exchange(e, std::move(d)); L(T_PTR, norm(e.get())); L(T_USE, uint64_t(e.use_count())); break; }
        case 3: { S<O> e = sto->st.load(); if (!cas_portable(e)) break; r = sto->st.compare_exchange(e, place(op[3])); L(T_PTR, norm(e.get())); L(T_OWN, e.use_count() > 0); break; }
        case 4: { S<O> e = sto->st.load(); sto->st.store(place(op[4])); if (!cas_portable(e)) break; r = sto->st.compare_exchange(e, place(op[3])); L(T_PTR, norm(e.get())); L(T_USE, uint64_t(e.use_count())); place(op[1]) = std::move(e); break; }
        default: { S<O> e; if (!cas_portable(e)) break; r = sto->st.compare_exchange(e, place(op[3])); L(T_PTR, norm(e.get())); L(T_USE, uint64_t(e.use_count())); break; }
        }
        L(T_CAS, r);
        break;
    }
    default: {
        auto v = sto->st.load();
        obs_ptr(v);
        if (op[2] & 1) place(op[1]) = std::move(v); else if (op[2] & 2) slot<CO>(op[1]) = sto->st.load();
        break;
    }
    }
}
void do_sobs(const uint8_t* op) {
    ctx.c_storage = true;
    alignas(64) unsigned char buf[sizeof(typename P::template storage<O>)];
    auto* t = new (buf) typename P::template storage<O>(place(op[1]));
    obs_ptr(t->load());
    if (op[2] & 1) place(op[3]) = t->exchange(nullptr);
    if (op[2] & 2) t->store(place(op[4]));
    using ST = typename P::template storage<O>;
    t->~ST();
}

void do_mass(const uint8_t* op) {
    S<O> own;
    if (op[5] & 1) { if (op[5] & 2) own = ses.s[0]; else own = set.s[0]; }
    S<O>& s = own ? own : ssrc<O>(op[1], true);
    if (!s) return;
    static const size_t sizes[] = {2, 17, 66, 130, 200, 257, 257, 300, 33000, 65537, 65537, 70000};
    size_t n = sizes[op[2] % (P::tracked ? 8 : 12)];
    n -= op[6] % (n < 8 ? 1 : 8);
    if (!P::tracked && op[4] >= 0xFD) n = (size_t(1) << 20) + 1;
    if (n > 30000 && (budget_mass-- <= 0)) n = 300;
    ctx.c_mass = ctx.c_mass || n > 250;
    if ((op[3] & 0x30) == 0x10) {
        // a storage in which very much happened before
        for (size_t i = 0; i < n; ++i) {
            S<O> e = sto->st.load();
            switch (op[4] & 4 ? i & 3 : op[4] & 3) {
            case 0: sto->st.store(std::move(e)); break;
            case 1: e = sto->st.exchange(s); break;
            case 2: if (!sto->st.compare_exchange(e, s)) eng::fail("%s: compare_exchange fails although the value is the expected one", P::name); break;
            default: { S<O> x; if (cas_portable(x) && sto->st.compare_exchange(x, s)) L(T_PTR, i); break; }
            }
        }
        auto e = sto->st.load();
        L(T_PTR, norm(e.get()));
        L(T_COUNT, uint64_t(e.use_count()));
        return;
    }
    S<O> keep;
    if (op[3] & 1) {
        eng::hvec<W<O>> v;
        v.reserve(n);
        for (size_t i = 0; i < n; ++i) v.emplace_back(s);
        W<O> w(v[n / 2]);
        if (op[3] & 2) {
            // let the object go while many weak pointers watch
            S<O> x = std::move(s);
            L(T_COUNT, uint64_t(x.use_count()));
            x.reset();
            L(T_COUNT, uint64_t(w.use_count()));
        }
        while (v.size() > 1) v.pop_back();
        L(T_COUNT, uint64_t(v[0].use_count()));
        L(T_LOCKED, norm(v[0].lock().get()));
        v.clear();
        L(T_LOCKED, norm(w.lock().get()));
    }
    else {
        eng::hvec<S<O>> v;
        v.reserve(n);
        for (size_t i = 0; i < n; ++i) v.push_back(s);
        L(T_COUNT, uint64_t(s.use_count()));
        W<O> w(v[n - 1]);
        if (op[3] & 2) {
            S<O> x = std::move(s);
            x.reset();
            L(T_COUNT, uint64_t(w.use_count()));
        }
        if (op[3] & 4) { L(T_LOCKED, norm(w.lock().get())); v[0] = v[n - 1]; }
        {   // cast, aliased and asked for owners while it has so many
            auto c = op[4] & 1 ? P::template scast<O>(v[0]) : P::template dcast<O>(v[0]);
            L(T_PTR, norm(c.get()));
            L(T_COUNT, uint64_t(c.use_count()));
            auto a = P::aliased(c, c ? &c->val : nullptr);
            L(T_PTR, norm(a.get()));
            L(T_COUNT, uint64_t(a.use_count()));
            W<int> wa(a);
            L(T_LOCKED, norm(wa.lock().get()));
            L(T_SAME, P::same(a, w));
            for (auto& r : reg) {
                if (!r.alive || r.o != c.get()) continue;
                auto ask = [&](auto* x) { auto t = x->sft(); L(T_ESF, P::same(t, c)); L(T_COUNT, uint64_t(t.use_count())); };
                if (r.esf_raw) ask(r.esf_raw); else if (r.esft_raw) ask(r.esft_raw);
                break;
            }
        }
        S<O> last = v[n / 2];
        v.clear();
        L(T_COUNT, uint64_t(last.use_count()));
        L(T_LOCKED, norm(w.lock().get()));
        if (op[3] & 8) place(op[4]) = std::move(last);
    }
}
static S<O> pass(S<O> x) { return x; }
static S<CO> pass_c(S<CO> x) { S<CO> y = x; return y; }
void do_temp(const uint8_t* op) {
    S<O>& s = place(op[1]);
    switch (op[2] % 6) {
    case 0: { S<O>& d = place(op[3]); d = pass(s); break; }
    case 1: { S<O>& d = place(op[3]); d = pass(std::move(s)); break; }
    case 2: { S<CO>& d = slot<CO>(op[3]); d = pass_c(s); break; }
    case 3: {
        eng::hvec<S<O>> v;
        for (int i = 0; i < 5; ++i) { v.push_back(s); v.push_back(place(op[3])); }
        v.erase(v.begin() + (op[4] % v.size()));
        v.insert(v.begin(), place(op[4]));
        L(T_USE, uint64_t(s.use_count()));
        std::swap(v[0], v[v.size() - 1]);
        obs_ptr(v[op[4] % v.size()]);
        break;
    }
    case 4: {
        eng::hvec<W<O>> v;
        for (int i = 0; i < 4; ++i) { v.push_back(s); v.push_back(wo.s[i % 3]); }
        v.erase(v.begin() + (op[4] % v.size()));
        std::swap(v[0], v[1]);
        obs_ptr(v[op[4] % v.size()].lock());
        break;
    }
    default: {
        S<O> a(s), b(a), c(std::move(a));
        L(T_USE, uint64_t(b.use_count()));
        obs_ptr(a);
        b = nullptr;
        L(T_USE, uint64_t(c.use_count()));
        cpy(place(op[3]), c);
        break;
    }
    }
}

template <typename A, typename B> void cmp_pair(const A& a, const B& b) {
    const void* pa = a.get(); const void* pb = b.get();
    bool eq = a == b;
    L(T_CMP, eq);
    if (eq != (pa == pb) || (a != b) == eq) eng::fail("%s: == and != disagree with the addresses", P::name);
    if ((a < b) != (pa < pb) || (a > b) != (pa > pb) || (a <= b) != (pa <= pb) || (a >= b) != (pa >= pb)) eng::fail("%s: the ordering disagrees with the addresses", P::name);
}
template <typename A, typename B> void owner_pair(const A& a, const B& b) {
    bool same = P::same(a, b);
    L(T_SAME, same);
    L(T_NONE, P::none(a)); L(T_NONE, P::none(b));
    if (same != P::same(b, a)) eng::fail("%s: same_owner is not symmetric", P::name);
}
template <typename A, typename B> void ob_pair(const A& a, const B& b) {
    bool ab = a.owner_before(b), ba = b.owner_before(a);
    if (ab && ba) eng::fail("%s: owner_before in both directions", P::name);
    L(T_OB, ab || ba);
}
void do_cmp(const uint8_t* op) {
    S<O>& a = place(op[1]); S<O>& b = place(op[2]);
    cmp_pair(a, b); owner_pair(a, b); ob_pair(a, b);
    S<CO>& c = slot<CO>(op[2]);
    cmp_pair(a, c); owner_pair(a, c); ob_pair(a, c);
    S<int>& i = slot<int>(op[2]);
    owner_pair(a, i); ob_pair(a, i);
    S<Child<P>>& ch = slot<Child<P>>(op[1]);
    L(T_CMP, ch == a);
    owner_pair(ch, a);
    owner_pair(slot<PolyPad>(op[1]), slot<Vec>(op[1])); ob_pair(slot<PolyPad>(op[1]), slot<Vec>(op[1]));
    owner_pair(slot<PolyPad>(op[1]), slot<PolyPad>(uint8_t(op[1] + 1)));
    with_wtype(op[3], [&](auto ty) {
        using T = typename decltype(ty)::type;
        auto& w = wslot<T>(op[4]);
        owner_pair(a, w); owner_pair(w, a);
        W<O> wa(a);
        if (w.owner_before(a) != w.owner_before(wa)) eng::fail("%s: owner_before of a shared pointer and of a weak pointer to the same owner differ", P::name);
        ob_pair(w, wa);
        if (w.owner_before(a) && P::same(w, a)) eng::fail("%s: owner_before of the same owner", P::name);
        auto& w2 = wslot<O>(op[1]);
        owner_pair(w, w2); ob_pair(w, w2);
    });
    // owner_before orders: transitive on triples
    auto& w0 = wo.s[0]; auto& w1 = wo.s[1]; auto& w2 = wo.s[2];
    if (w0.owner_before(w1) && w1.owner_before(w2) && !w0.owner_before(w2)) eng::fail("%s: owner_before is not transitive", P::name);
    if (a && id_of(a.get()) >= 0) { L(T_DEREF, uint64_t((*a).val)); L(T_DEREF, uint64_t(a->arr[0])); L(T_DEREF, uint64_t(a.get()->id)); }
    if (i) L(T_DEREF, uint64_t(*i));
    // null comparisons through an empty pointer
    S<O> e;
    cmp_pair(a, e); owner_pair(a, e);
}
void do_self(const uint8_t* op) {
    ctx.c_selfop = true;
    with_type(seek_type(op[3], op[7] & 3), [&](auto ty) {
        using T = typename decltype(ty)::type;
        auto& s = ssrc<T>(op[1], op[7] & 3);
        auto& r = self_ref(s);
        switch (op[2] % 3) {
        case 0: s = r; break;
        case 1: s = std::move(r); break;
        default: s.swap(r); break;
        }
    });
    with_wtype(seek_wtype(op[3], op[7] & 3), [&](auto ty) {
        using T = typename decltype(ty)::type;
        auto& s = wsrc<T>(op[1], op[7] & 3);
        auto& r = self_ref(s);
        switch (op[2] % 3) {
        case 0: s = r; break;
        case 1: s = std::move(r); break;
        default: s.swap(r); break;
        }
    });
}
template <typename T> static T& self_ref(T& t) { return t; }

void do_arr(const uint8_t* op) {
    ctx.c_array = true;
    auto& s = sar.s[op[1] & 1];
    using E = Elem<P>;
    if ((op[2] % 8) < 5 && (opt.noalloc || next_elem > 200)) return;
    size_t n = op[3] % 6;
    Plan pl = plan_from(op[4], false);
    S<E[]> t;
    bool ok = false;
    switch (op[2] % 8) {
    case 0: { E* p = new E[n]; ok = create_op(true, pl, [&] { t = S<E[]>(p); }, [&] { delete[] p; }); break; }
    case 1: { E* p = new E[n]; create_op(true, pl, [&] { s.reset(p); }, [&] { delete[] p; }); break; }
    case 2: { E* p = new E[n]; ArrDel<P> d(300 + next_owner); ok = create_op(true, pl, [&] { S<E[]> x(p, d); t.swap(x); }, [&] { d(p); }); break; }
    case 3: { typename P::template uptr<E[]> u(new E[n]); ok = create_op(true, pl, [&] { t = S<E[]>(std::move(u)); }, [] {}); L(T_UPTR, norm(u.get())); break; }
    case 4: { typename P::template uptr<E[]> u(new E[n]); create_op(true, pl, [&] { s = std::move(u); }, [] {}); L(T_UPTR, norm(u.get())); break; }
    case 5: s.reset(); break;
    case 6: cpy(s, sar.s[1 - (op[1] & 1)]); break;
    default: s = std::move(sar.s[1 - (op[1] & 1)]); break;
    }
    if (ok) s = std::move(t);
    if (s) { int i = 0; for (auto& e : elems) if (e.first == s.get()) i = 1; if (i) L(T_DEREF, uint64_t(s[0].id)); }
}
void do_nv(const uint8_t* op) {
    auto& s = snv.s[0];
    using N = NVD<P>;
    if (opt.noalloc || next_nv > 60) { s = nullptr; return; }
    Plan pl = plan_from(op[4], op[2] % 6 == 0);
    S<NV> t;
    bool ok = false;
    Del<P> d(500 + next_owner, 0);
    switch (op[2] % 6) {
    case 0: { bool b = pl.boom(); ok = create_op(true, pl, [&] { t = P::template make<N>(b); }, [] {}); break; }
    case 1: { N* p = new N(); ok = create_op(true, pl, [&] { t = S<NV>(p); }, [&] { delete p; }); break; }
    case 2: { N* p = new N(); create_op(true, pl, [&] { s.reset(p); }, [&] { delete p; }); break; }
    case 3: { N* p = new N(); ok = create_op(true, pl, [&] { S<NV> x(p, NVDel{}); t.swap(x); }, [&] { NVDel{}(p); }); break; }
    case 4: { typename P::template uptr<N> u(new N()); ok = create_op(true, pl, [&] { t = S<NV>(std::move(u)); }, [] {}); break; }
    default: s = nullptr; break;
    }
    if (ok) s = std::move(t);
    if (s) L(T_DEREF, uint64_t(s->v));
}
struct NVDel { void operator()(NVD<P>* p) const { delete p; } };
void do_void(const uint8_t* op) {
    if (opt.noalloc || next_nv > 60 || reg.size() > 120) return;
    using N = NVD<P>;
    Plan pl = plan_from(op[4], false);
    switch (op[2] % 4) {
    case 0: { N* p = new N(); create_op(true, pl, [&] { S<void> t(p); S<void> u(t); t.reset(); L(T_USE, uint64_t(u.use_count())); }, [&] { delete p; }); break; }
    case 1: { N* p = new N(); create_op(true, pl, [&] { S<const void> t(p); W<const void> w(t); S<const void> u(std::move(t)); L(T_USE, uint64_t(w.use_count())); }, [&] { delete p; }); break; }
    case 2: { auto p = new Multi<P>(Init{}); Del<P> d(700 + next_owner, 0); create_op(true, pl, [&] { S<void> t(static_cast<Vec*>(p), VecDel{}); S<void> u = t; }, [&] { VecDel{}(p); }); break; }
    default: { typename P::template uptr<N> u(new N()); create_op(true, pl, [&] { S<void> t(std::move(u)); }, [] {}); L(T_MISC, bool(u)); break; }
    }
}
struct VecDel { void operator()(Vec* p) const { delete p; } };
void do_null(const uint8_t* op) {
    ctx.c_null_owner = true;
    if constexpr (!P::is_std) {
        if (opt.std_common || opt.noalloc) return;
        Plan pl = plan_from(op[4], false);
        Del<P> d(800, 0);
        S<O> t;
        switch (op[2] % 8) {
        case 0: create_op(true, pl, [&] { t = S<O>(static_cast<Child<P>*>(nullptr)); }, [] {}); break;
        case 1: create_op(true, pl, [&] { S<O> x(nullptr, d); t.swap(x); }, [] {}); break;
        case 2: create_op(true, pl, [&] { typename P::template uptr<Child<P>> u; t = S<O>(std::move(u)); }, [] {}); break;
        case 3: create_op(true, pl, [&] { S<EsfObj<P>> e(static_cast<EsfObj<P>*>(nullptr)); t = e; }, [] {}); break;
        case 4: create_op(true, pl, [&] { typename P::template uptr<EsftObj<P>, Del<P>> u(nullptr, d); S<EsftObj<P>> e(std::move(u)); t = e; }, [] {}); break;
        case 5: create_op(true, pl, [&] { S<Virt<P>> e(static_cast<Virt<P>*>(nullptr), d); S<O> x(e); t = x; }, [] {}); break;
        case 6: create_op(true, pl, [&] { t.reset(static_cast<O*>(nullptr)); }, [] {}); break;
        default: create_op(true, pl, [&] { S<O> x(static_cast<O*>(nullptr), fn_del<P>); t = x; }, [] {}); break;
        }
        L(T_PTR, norm(t.get()));
        L(T_BOOL, bool(t));
        { S<O> c(t); W<O> w(t); L(T_PTR, norm(c.get())); L(T_LOCKED, norm(w.lock().get())); }
        auto c = P::template dcast<Child<P>>(t);
        L(T_PTR, norm(c.get())); L(T_BOOL, bool(c));
    }
    else {
        (void)op;
    }
}

// ---------------- what destructors do ----------------
void reentry(O& self) {
    if (budget <= 0) return;
    --budget;
    ctx.c_reentrant = true;
    auto& st = track::st;
    track::State saved = st;
    st.fail_in = 0; st.tag = 0;
    L(T_REENT, uint64_t(self.act[0]));
    uint8_t f = self.act[1], g = self.act[2];
    S<O>& x = so.s[f & 3];
    S<O>& y = so.s[g & 3];
    switch (self.act[0]) {
    case 1: x.reset(); break;
    case 2: cpy(x, y); break;
    case 3: x = std::move(y); break;
    case 4: obs_mid(x); L(T_LOCKED, norm(wo.s[g % 3].lock().get())); break;
    case 5: x = wo.s[g % 3].lock(); break;
    case 6: ctx.c_reent_storage = true; sto->st.store(x); break;
    case 7: ctx.c_reent_storage = true; x = sto->st.load(); break;
    case 8: if (!opt.noalloc && reg.size() < 120) { create_op(true, Plan{}, [&] { x = P::template make<O>(Init{}); }, [] {}); } break;
    case 9: self.l[f & 1].reset(); break;
    case 10: x = std::move(self.l[g & 1]); break;
    case 11: x.swap(y); break;
    case 12: cpy(sco.s[f & 1], y); break;
    case 13: ctx.c_reent_storage = true; if (cas_portable(x)) { bool r = sto->st.compare_exchange(x, y); L(T_CAS, r); } break;
    case 14: ctx.c_reent_storage = true; y = sto->st.exchange(x); break;
    case 15: wo.s[f % 3] = y; break;
    case 16: sch.s[f & 1].reset(); break;
    case 17: { W<O> t(x); x = nullptr; L(T_NONE, P::none(t)); break; }
    case 18: for (auto& s : so.s) obs_mid(s); break;
    case 19: x = self.w.lock(); break;
    default: un[f & 1].reset(); break;
    }
    st.fail_in = saved.fail_in; st.tag = saved.tag; st.fired = saved.fired;
}

int budget_mass = 2;

static bool creates(uint8_t c) { return c == MAKE || c == UNIQ || c == ARR || c == NVOP || c == VOIDOP || c == NULLOP || c == ESFRAW; }

void exec(const uint8_t* op) {
    ++cur_op;
    ++ctx.n_ops;
    uint8_t code = op[0] % NOPS;
    struct Forbid { bool on; Forbid(bool b) : on(b) { if (on) track::st.forbid = true; } ~Forbid() { if (on) track::st.forbid = false; } };
    Forbid fb(opt.noalloc && !creates(code) && !P::is_ref);
    if (fb.on) ctx.c_noalloc = true;
    bool was_link = code <= RESET && in_link(op[1]);
    ctx.c_destroyed_in_op = false;
    switch (code) {
    case MAKE: {
        // in the restricted mode only operations which make something new may allocate: destructors run by it must not
        do_make(op); break;
    }
    case COPY: typed_pair(op, [&](auto& d, auto& s) { copy_form(d, s, op[5]); }); break;
    case MOVE: ctx.c_moved = true; typed_pair(op, [&](auto& d, auto& s) { move_form(d, s, op[5]); }); break;
    case SWAP: ctx.c_swap = true; with_type(seek_type(op[3], op[7] & 3), [&](auto ty) { using T = typename decltype(ty)::type; auto& a = slot<T>(op[1]); auto& b = slot<T>(op[2]); if (op[5] & 1) a.swap(b); else std::swap(a, b); }); break;
    case RESET: with_type(seek_type(op[3], op[7] & 1), [&](auto ty) { using T = typename decltype(ty)::type; auto& a = ssrc<T>(op[1], op[7] & 1); if (op[5] % 3 == 0) a.reset(); else if (op[5] % 3 == 1) a = nullptr; else a = S<T>(); }); break;
    case ALIAS: do_alias(op); break;
    case CAST: do_cast(op); break;
    case WFROM: do_wfrom(op); break;
    case WCOPY: wtyped_pair(op, [&](auto& d, auto& s) { wcopy_form(d, s, op[5]); }); break;
    case WMOVE: wtyped_pair(op, [&](auto& d, auto& s) { wmove_form(d, s, op[5]); }); break;
    case WSWAP: with_wtype(seek_wtype(op[3], op[7] & 3), [&](auto ty) { using T = typename decltype(ty)::type; auto& a = wslot<T>(op[1]); auto& b = wslot<T>(op[2]); if (op[5] & 1) a.swap(b); else std::swap(a, b); }); break;
    case WRESET: with_wtype(op[3], [&](auto ty) { using T = typename decltype(ty)::type; auto& a = wslot<T>(op[1]); if (op[5] & 1) a.reset(); else a = W<T>(); }); break;
    case WALIAS: do_walias(op); break;
    case LOCK: do_lock(op); break;
    case LINK: do_link(op); break;
    case ADVANCE: do_advance(op); break;
    case UNIQ: do_uniq(op); break;
    case ESF: do_esf(op); break;
    case ESFRAW: do_esfraw(op); break;
    case STORE: case EXCH: case CAS: case LOADOP: do_storage(op); break;
    case MASS: do_mass(op); break;
    case TEMP: do_temp(op); break;
    case CMP: do_cmp(op); break;
    case SELF: do_self(op); break;
    case ARR: do_arr(op); break;
    case NVOP: do_nv(op); break;
    case VOIDOP: do_void(op); break;
    case NULLOP: do_null(op); break;
    case WLINK: if (so.s[op[1] & 3]) so.s[op[1] & 3]->w = wslot<O>(op[2]); break;
    case SOBS: do_sobs(op); break;
    default: break;
    }
    if (was_link && ctx.c_destroyed_in_op) ctx.c_released_by_place = true;
    all_weak([&](auto& w) { if (!ctx.c_weak_expired && w.expired() && !P::none(w)) ctx.c_weak_expired = true; });
    observe_all();
}

void teardown() {
    cur_op = 0xFFFF;
    if (opt.noalloc && !P::is_ref) track::st.forbid = true;
    for (int pass = 0; pass < 3; ++pass) {
        if (pass == 1) budget = 0;
        all_strong([&](auto& s) { s.reset(); });
        observe_all();
        sto->st.store(nullptr);
        for (auto& u : un) u.reset();
        // what is left keeps itself alive
        for (size_t i = 0; i < reg.size(); ++i) {
            if (reg[i].alive) { if (!reg[i].ext) ctx.c_cycle = true; reg[i].o->l[0].reset(); }
            if (reg[i].alive) reg[i].o->l[1].reset();
            if (reg[i].alive) reg[i].o->u.reset();
        }
    }
    for (size_t i = 0; i < reg.size(); ++i) if (reg[i].alive) {
        if (!reg[i].ext) eng::fail("%s: object %zu is still alive when no pointer to it is left", P::name, i);
        if (reg[i].esf_raw) esf_unowned(*reg[i].esf_raw);
        if (reg[i].esft_raw) esf_unowned(*reg[i].esft_raw);
        delete reg[i].o;
    }
    observe_all();
    all_weak([&](auto& w) { w.reset(); });
    observe_all();
    sto->~Sto();
    std::free(sto);
    for (auto& r : refdel) { L(T_DELID, uint64_t(r->id)); r->~Del<P>(); std::free(r); }
    track::st.forbid = false;
    if (del_live) eng::fail("%s: %d deleters were not destroyed", P::name, del_live);
    for (auto& e : elems) if (e.first) eng::fail("%s: array element %d is still alive", P::name, e.second);
    for (auto& e : nvs) if (e.first) eng::fail("%s: object %d is still alive", P::name, e.second);
    if (arena[0].live || arena[1].live) eng::fail("%s: a block was not returned to its allocator", P::name);
    L(T_END, 0);
}
