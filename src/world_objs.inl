// members of the objects of the universe
template <typename P>
Obj<P>::Obj(const Init& in) {
    auto& w_ = *Cur<P>::w;
    if (in.boom) throw Boom{};
    id = int(w_.reg.size());
    val = 1000 + id;
    for (int i = 0; i < 3; ++i) { arr[i] = id * 10 + i; act[i] = in.act[i]; }
    typename World<P>::Info inf;
    inf.o = this; inf.alive = true;
    inf.lo = reinterpret_cast<const char*>(this); inf.hi = inf.lo + sizeof(Obj);
    w_.reg.push_back(inf);
    ++w_.ctx.n_objects;
    w_.L(T_CTOR, uint64_t(id));
}
template <typename P> Obj<P>::Obj() : Obj(Cur<P>::w->pending) {}
template <typename P> Child<P>::Child() : Child(Cur<P>::w->pending) {}
template <typename P> Multi<P>::Multi() : Multi(Cur<P>::w->pending) {}
template <typename P> Virt<P>::Virt() : Virt(Cur<P>::w->pending) {}
template <typename P> EsfObj<P>::EsfObj() : EsfObj(Cur<P>::w->pending) {}
template <typename P> EsftObj<P>::EsftObj() : EsftObj(Cur<P>::w->pending) {}
template <typename P>
Obj<P>::Obj(const Obj& o) : Obj(Init{}) { Cur<P>::w->L(T_COPYCTOR, uint64_t(o.id)); }

template <typename P>
Obj<P>::~Obj() {
    auto& w_ = *Cur<P>::w;
    if (magic != 0x0B1EC7ED) eng::fail("%s: an object is destroyed which is not alive (magic %x)", P::name, magic);
    w_.reg[size_t(id)].kind = K_OBJ;
    w_.L(T_DTOR, uint64_t(id));
    w_.ctx.c_destroyed_in_op = true;
    if (act[0]) w_.reentry(*this);
    magic = 0xDEAD;
    w_.reg[size_t(id)].alive = false;
    // the members go now, l[1] last
}
template <typename P>
Child<P>::Child(const Init& in) : Obj<P>(in) {
    auto& r = Cur<P>::w->reg[size_t(this->id)];
    if (in.boom_derived) throw Boom{};
    r.child = this; r.kind = K_CHILD;
    r.lo = reinterpret_cast<const char*>(this); r.hi = r.lo + sizeof(*this);
}
template <typename P> Child<P>::~Child() {
    if (extra != 5) eng::fail("a Child is destroyed twice");
    extra = -1;
    Cur<P>::w->L(T_DTOR_DERIVED, uint64_t(this->id));
}
template <typename P>
Multi<P>::Multi(const Init& in) : Obj<P>(in) {
    auto& r = Cur<P>::w->reg[size_t(this->id)];
    if (in.boom_derived) throw Boom{};
    r.multi = this; r.pad = static_cast<PolyPad*>(this); r.vec = static_cast<Vec*>(this); r.kind = K_MULTI;
    r.lo = reinterpret_cast<const char*>(this); r.hi = r.lo + sizeof(*this);
}
template <typename P> Multi<P>::~Multi() { Cur<P>::w->L(T_DTOR_DERIVED, uint64_t(this->id)); }
template <typename P>
Virt<P>::Virt(const Init& in) : Obj<P>(in) {
    auto& r = Cur<P>::w->reg[size_t(this->id)];
    if (in.boom_derived) throw Boom{};
    r.virt = this; r.kind = K_VIRT;
    r.lo = reinterpret_cast<const char*>(this); r.hi = r.lo + sizeof(*this);
}
template <typename P> Virt<P>::~Virt() { Cur<P>::w->L(T_DTOR_DERIVED, uint64_t(this->id)); }

template <typename P>
EsfObj<P>::EsfObj(const Init& in) : Obj<P>(in) {
    auto& r = Cur<P>::w->reg[size_t(this->id)];
    if (in.boom_derived) throw Boom{};
    r.esf = this; r.esf_raw = this; r.kind = K_ESF;
    r.lo = reinterpret_cast<const char*>(this); r.hi = r.lo + sizeof(*this);
    Cur<P>::w->esf_unowned(*this);
}
template <typename P>
EsfObj<P>::EsfObj(const EsfObj& o) : Obj<P>(o), P::esf(o) {
    auto& r = Cur<P>::w->reg[size_t(this->id)];
    r.esf = this; r.esf_raw = this; r.kind = K_ESF;
    r.lo = reinterpret_cast<const char*>(this); r.hi = r.lo + sizeof(*this);
    Cur<P>::w->esf_unowned(*this);
}
template <typename P> EsfObj<P>::~EsfObj() {
    Cur<P>::w->L(T_DTOR_DERIVED, uint64_t(this->id));
    Cur<P>::w->esf_unowned(*this);
    Cur<P>::w->reg[size_t(this->id)].esf_raw = nullptr;
}
template <typename P>
EsftObj<P>::EsftObj(const Init& in) : Obj<P>(in) {
    auto& r = Cur<P>::w->reg[size_t(this->id)];
    if (in.boom_derived) throw Boom{};
    r.esft = this; r.esft_raw = this; r.kind = K_ESFT;
    r.lo = reinterpret_cast<const char*>(this); r.hi = r.lo + sizeof(*this);
    Cur<P>::w->esf_unowned(*this);
}
template <typename P>
EsftObj<P>::EsftObj(const EsftObj& o) : Obj<P>(o), P::template esft<EsftObj<P>>(o) {
    auto& r = Cur<P>::w->reg[size_t(this->id)];
    r.esft = this; r.esft_raw = this; r.kind = K_ESFT;
    r.lo = reinterpret_cast<const char*>(this); r.hi = r.lo + sizeof(*this);
    Cur<P>::w->esf_unowned(*this);
}
template <typename P> EsftObj<P>::~EsftObj() {
    Cur<P>::w->L(T_DTOR_DERIVED, uint64_t(this->id));
    Cur<P>::w->esf_unowned(*this);
    Cur<P>::w->reg[size_t(this->id)].esft_raw = nullptr;
}
template <typename P> Elem<P>::Elem() : id(Cur<P>::w->next_elem++) {
    Cur<P>::w->elems.push_back({this, id});
    Cur<P>::w->L(T_ELEM_CTOR, uint64_t(id));
}
template <typename P> Elem<P>::~Elem() {
    if (magic != 0xE1E3) eng::fail("an array element is destroyed which is not alive");
    magic = 0xDEAD;
    auto& v = Cur<P>::w->elems;
    for (auto& e : v) if (e.first == this) e.first = nullptr;
    Cur<P>::w->L(T_ELEM_DTOR, uint64_t(id));
}
template <typename P> NVD<P>::NVD(bool boom) {
    if (boom) throw Boom{};
    id = Cur<P>::w->next_nv++;
    Cur<P>::w->nvs.push_back({static_cast<NV*>(this), id});
    Cur<P>::w->L(T_CTOR, uint64_t(0x10000 + id));
}
template <typename P> NVD<P>::~NVD() {
    if (magic != 0x57D) eng::fail("an object with a non-virtual destructor is destroyed which is not alive");
    magic = 0xDEAD;
    for (auto& e : Cur<P>::w->nvs) if (e.first == static_cast<NV*>(this)) e.first = nullptr;
    Cur<P>::w->L(T_DTOR, uint64_t(0x10000 + id));
}
// deleters
template <typename P> Del<P>::Del() { ++Cur<P>::w->del_live; }
template <typename P> Del<P>::Del(int id, uint8_t mode) : id(id), mode(mode) { ++Cur<P>::w->del_live; }
template <typename P> Del<P>::Del(const Del& o) : id(o.id), mode(o.mode) { ++Cur<P>::w->del_live; }
template <typename P> Del<P>::Del(Del&& o) noexcept : id(o.id), mode(o.mode) { o.id = -2; ++Cur<P>::w->del_live; }
template <typename P> Del<P>::~Del() { if (id == -3) eng::fail("%s: a deleter is destroyed twice", P::name); *const_cast<volatile int*>(&id) = -3; --Cur<P>::w->del_live; }
template <typename P> template <typename T> void Del<P>::operator()(T* p) const {
    auto& w = *Cur<P>::w;
    w.ctx.c_deleter = true;
    if (id == -3) eng::fail("%s: a deleter is called which was destroyed", P::name);
    w.L(T_DELID, uint64_t(int64_t(id)));
    if (!p) eng::fail("%s: a deleter is called with null", P::name);
    w.L(T_DEL, w.norm(p));
    if (mode == 0) delete p;
}
template <typename P> void fn_del(Obj<P>* p) {
    auto& w = *Cur<P>::w;
    w.ctx.c_deleter = true;
    if (!p) eng::fail("%s: a deleter is called with null", P::name);
    w.L(T_DEL, w.norm(p));
    delete p;
}
template <typename P> void fn_del_c(const Obj<P>* p) { fn_del<P>(const_cast<Obj<P>*>(p)); }
template <typename P> ArrDel<P>::ArrDel() { ++Cur<P>::w->del_live; }
template <typename P> ArrDel<P>::ArrDel(int id) : id(id) { ++Cur<P>::w->del_live; }
template <typename P> ArrDel<P>::ArrDel(const ArrDel& o) : id(o.id) { ++Cur<P>::w->del_live; }
template <typename P> ArrDel<P>::ArrDel(ArrDel&& o) noexcept : id(o.id) { ++Cur<P>::w->del_live; }
template <typename P> ArrDel<P>::~ArrDel() { --Cur<P>::w->del_live; }
template <typename P> void ArrDel<P>::operator()(Elem<P>* p) const {
    auto& w = *Cur<P>::w;
    w.L(T_DELID, uint64_t(int64_t(id)));
    w.L(T_DEL, w.norm(p));
    delete[] p;
}
