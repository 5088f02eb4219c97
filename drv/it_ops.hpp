// iterator operations, common to both block containers
void vc_it_preinc(It* i) { ++*i; }
void vc_it_predec(It* i) { --*i; }
void vc_it_postinc(It* i, It* r) { new (r) It((*i)++); }
void vc_it_postdec(It* i, It* r) { new (r) It((*i)--); }
void vc_it_addassign(It* i, std::ptrdiff_t m) { *i += m; }
void vc_it_subassign(It* i, std::ptrdiff_t m) { *i -= m; }
void vc_it_plus(const It* i, std::ptrdiff_t m, It* r) { new (r) It(*i + m); }
void vc_it_minus(const It* i, std::ptrdiff_t m, It* r) { new (r) It(*i - m); }
bool vc_it_eq(const It* a, const It* b) { return *a == *b; }
bool vc_it_ne(const It* a, const It* b) { return *a != *b; }
const Elem* vc_it_deref(It* a) { return &**a; }
const Elem* vc_it_arrow(It* a) { return a->operator->(); }
void vc_cit_preinc(CIt* i) { ++*i; }
void vc_cit_predec(CIt* i) { --*i; }
void vc_cit_postinc(CIt* i, CIt* r) { new (r) CIt((*i)++); }
void vc_cit_postdec(CIt* i, CIt* r) { new (r) CIt((*i)--); }
void vc_cit_addassign(CIt* i, std::ptrdiff_t m) { *i += m; }
void vc_cit_subassign(CIt* i, std::ptrdiff_t m) { *i -= m; }
void vc_cit_plus(const CIt* i, std::ptrdiff_t m, CIt* r) { new (r) CIt(*i + m); }
void vc_cit_minus(const CIt* i, std::ptrdiff_t m, CIt* r) { new (r) CIt(*i - m); }
bool vc_cit_eq(const CIt* a, const CIt* b) { return *a == *b; }
bool vc_cit_ne(const CIt* a, const CIt* b) { return *a != *b; }
const Elem* vc_cit_deref(CIt* a) { return &**a; }
const Elem* vc_cit_arrow(CIt* a) { return a->operator->(); }
bool vc_it_eq_cit(const It* a, const CIt* b) { return *a == *b; }
bool vc_it_ne_cit(const It* a, const CIt* b) { return *a != *b; }
bool vc_cit_eq_it(const CIt* a, const It* b) { return *a == *b; }
bool vc_cit_ne_it(const CIt* a, const It* b) { return *a != *b; }
