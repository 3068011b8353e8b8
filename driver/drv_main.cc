// Analysis driver: instantiates the public API of the library for the coefficient rings and monomial orders it
// supports, so that the extractor sees resolved bodies. It is parsed only: never compiled to code, never run.
#include <clpoly/clpoly.hh>
#include "lib_sources.inc"
#include <sstream>
#include <set>
#include <map>
using namespace clpoly;
using vlex = lex_<custom_var_order>;
using upo = univariate_priority_order;

template <class T> T any();                      // declared only
template <class T> T& lv();                      // declared only

template<class M> void use_monomial() {
    M &a=lv<M>(); const M &b=lv<M>(), &c=lv<M>();
    M d(a), e(std::move(d)); a=b; a=std::move(e); a.swap(e); a=b*c; a=b/c; a==b; a!=b; b<c; b>c; b<=c; b>=c;
    b.deg(); b.deg(variable("x")); b.comp(); b.comp_ptr(); b.empty(); b.size(); a.push_back(std::pair<variable,int64_t>()); a.normalization(); b.str(); b.begin(); b.end(); b.front();
    a.clear(); a.resize(1); a.reserve(2);
    std::ostringstream ss; ss<<b; std::hash<M> h; h(b); gcd(b,c); lcm(b,c); pow(b,3); is_divexact(a,b,c);
    M f(b.comp_ptr()); M g;
}
template<class P> void use_ring() {
    P &p=lv<P>(); const P &a=lv<P>(), &b=lv<P>(), &c=lv<P>();
    P d(a), e(std::move(d)), f, g(a.comp_ptr()), h(a.data()), i(std::vector<std::pair<typename P::first_type,typename P::second_type>>(a.data())), j{{a.front().first,a.front().second}};
    p=a; p=std::move(e); p={{a.front().first,a.front().second}};
    p.swap(f); p=a+b; p=a-b; p=a*b; p=a/b; p=-a; p=+a; a==b; a!=b;
    p.clear(); p.normalization(); p.push_back(a.front()); p.push_back(std::pair<typename P::first_type,typename P::second_type>(a.front())); p.pop_back(); p.resize(1); p.reserve(1); p[0]; a[0]; p.at(0); a.at(0); p.back(); a.back(); p.front();
    a.empty(); a.size(); p.data(); a.data(); p.comp(a.comp_ptr()); p.shrink_to_fit(); p.capacity(); a.str(); 
    std::ostringstream ss; ss<<a; std::vector<P> v; ss<<v; std::set<P> s; ss<<s;
    pow(a,3); polynomial_div(p,a,b);
    pair_vec_normal_check(a.data(),a.comp());
}
template<class P> void use_ord() { const P &a=lv<P>(), &b=lv<P>(); std::hash<P> hh; hh(a); a<b; a>b; a<=b; a>=b; }
template<class T,class C> void use_poly() {
    using P=polynomial_<T,C>; 
    use_ring<P>(); use_ord<P>();
    P &p=lv<P>(); const P &a=lv<P>(), &b=lv<P>(); variable x("x"); T c=lv<T>();
    a.variables(); a.degree(); degree(a); degree(a,x); get_variables(a); std::vector<P> v; get_variables(v); get_deg(a);
    coeff(a,x); leadcoeff(a,x); prem(a,b,x); pquo(a,b,x); P R; pquo(R,a,b,x); assign(a,x,c); std::map<variable,T> m; assign(a,m); derivative(a,x); is_number(a); tonum(a);
    p=a*c; poly_convert(a.front().first,p); poly_convert(1,p); poly_convert(x,p);
    resultant(a,b,x); subresultant(a,b,x);
}
template<class P> void use_divrem() { P a,b,p,R; polynomial_div(p,R,a,b); }
template<class C> void use_poly_zz() {
    using P=polynomial_<ZZ,C>; use_poly<ZZ,C>(); discriminant(lv<P>(),variable("x")); use_divrem<P>(); use_divrem<polynomial_<Zp,C>>();
    const P &a=lv<P>(), &b=lv<P>(); std::vector<P> v; P s,t; variable x("x");
    gcd(a,b); polynomial_GCD(a,b); is_squarefree(a); squarefreefactorize(a); squarefreebasis(v); factorize(a); sqrfree(a); sqrfree(v);
    associatedgraph(v); peo(v); realroot(v);
    P q(a.comp_ptr()); poly_convert(ZZ(1),q); poly_convert(a,q); polynomial_mod(a,(uint64_t)7); polynomial_mod(std::move(q),(uint64_t)7);
    upolynomial_<ZZ> u; poly_convert(a,u); poly_convert(u,q,x);
    polynomial_<QQ,C> qq(a.comp_ptr()); poly_convert(qq,q); poly_convert(std::move(qq),q); poly_convert(a,qq);
    polynomial_<Zp,C> pp(a.comp_ptr()); poly_convert(pp,q); poly_convert(std::move(pp),q); poly_convert(QQ(1),qq); poly_convert(ZZ(1),qq);
    use_poly<QQ,C>(); factorize(qq);
    use_ring<polynomial_<Zp,C>>();
}
template<class C1,class C2> void use_convert() {
    polynomial_<ZZ,C1> a; polynomial_<ZZ,C2> b; poly_convert(a,b); poly_convert(std::move(a),b);
    polynomial_<QQ,C1> c; polynomial_<QQ,C2> d; poly_convert(c,d); poly_convert(std::move(c),d);
    polynomial_<Zp,C1> e; polynomial_<ZZ,C2> f; poly_convert(e,f); poly_convert(std::move(e),f);
}
template<class VO> void use_lex() {
    using C=lex_<VO>; using P=polynomial_<ZZ,C>;
    const P &a=lv<P>(), &b=lv<P>(); cont(a); pp(a); derivative(a); { P s,t; gcd(a,b,s,t); polynomial_GCD(a,b,s,t); } leadcoeff(a); get_first_var(a); get_first_deg(a); get_last_var_deg(a);
    P O(a.comp_ptr()),Q(a.comp_ptr()); prem(O,a,b,variable("x")); pquo(Q,O,a,b,variable("x"));
    polynomial_<Zp,C> z; derivative(z); derivative(z,variable("x"));
}
template<class VO> void use_hensel() {
    using P=polynomial_<ZZ,lex_<VO>>; P f; std::vector<upolynomial_<ZZ>> u; std::vector<P> l; std::map<variable,ZZ> e;
    __multivar_hensel_lift(f,u,l,e,variable("x"));
}
template<class T> void use_u() {
    using P=upolynomial_<T>; use_ring<P>(); const P &a=lv<P>(), &b=lv<P>(); T c; P s,t;
    assign(a,c); get_deg(a); degree(a); derivative(a); is_number(a); a*c; c*a; 
}
template<class C,class T> void use_gb() {
    using P=polynomial_<T,C>; std::vector<P> v; P f,g; groebner_basis(v); s_polynomial(f,g); normal_form(f,v);
    Ideal<T,C> I(v), J(I), K{f,g}; const Ideal<T,C>& L=J; L.generators(); L.groebner_basis(); L.contains(f); L.reduce(f); I=J;
}
template<class N> void use_graph() {
    graph<N> g, h; std::vector<N> l; std::vector<uint64_t> li; std::ostringstream ss; ss<<g; chordal_completion(g,h,li); chordal_completion(h); perfect_elimination_ordering(g);
    graph_diff_score(g,h); connected_branch(g); connected_branch_graph(g); elimination_game(g,l); elimination_height(g,l);
    random_graph(l,0.5); RandomSample(l,2);
}
void drive() {
    use_monomial<basic_monomial<grlex>>(); use_monomial<basic_monomial<lex>>(); use_monomial<basic_monomial<vlex>>(); use_monomial<basic_monomial<upo>>();
    use_poly_zz<grlex>(); use_poly_zz<lex>(); use_poly_zz<vlex>(); 
    use_ring<polynomial_<ZZ,upo>>(); use_ring<polynomial_<QQ,upo>>(); use_ring<polynomial_<Zp,upo>>();
    use_convert<grlex,lex>(); use_convert<lex,grlex>(); use_convert<grlex,vlex>(); use_convert<lex,upo>(); use_convert<upo,lex>(); use_convert<vlex,upo>(); use_convert<upo,vlex>(); use_convert<grlex,upo>(); use_convert<lex,vlex>();use_convert<upo,grlex>();
    use_lex<less>(); use_lex<custom_var_order>(); use_hensel<less>();
    use_u<ZZ>(); use_u<QQ>(); use_u<Zp>();
    { upolynomial_ZZ a,b; polynomial_GCD(a,b); factorize(a); upolynomial_<ZZ> s,t; gcd(a,b,s,t); cont(a); use_divrem<upolynomial_ZZ>();  upolynomial_<Zp> z; poly_convert(z,a); polynomial_mod(a,7);  }
    { upolynomial_<Zp> a,b,s,t; polynomial_GCD(a,b); gcd(a,b,s,t); factorize(a); }
    use_gb<grlex,QQ>(); use_gb<lex,QQ>(); use_gb<vlex,QQ>(); { std::vector<polynomial_<ZZ,grlex>> v; groebner_basis(v); std::vector<polynomial_<ZZ,lex>> w; groebner_basis(w);  }
    use_graph<variable>(); use_graph<std::string>();
    { std::vector<polynomial_<ZZ,vlex>> T; polynomial_<ZZ,vlex> f; std::vector<std::vector<polynomial_<ZZ,vlex>>> S; charset(T); wrsd(T,f); rsd(T,f); is_regular(T); ZDtoRC(T); Wucharset(T); GRDforZD(T); RCtoSqrfree(T); GRDforZDSAS(S); rankcompare(f,f); is_reduced(f,f); }
    { std::vector<variable> v; random_polynomial<ZZ>(v,3,4,{1,2}); random_polynomial<ZZ>(v,3,0.5,1,2); random_polynomial<QQ>(v,3,4,{1,2}); random_upolynomial<ZZ>(3,4,{1,2}); random_polynomials<ZZ>(v,3,0.5,0.5,1,2); }
    { polynomial_ZZ p; polynomial_QQ q; ZZ z; QQ r; monomial m; p=p+(int64_t)1; p=p-(int64_t)1; p=(int64_t)1+p; p=(int64_t)1-p; p=p+m; p=m+p; p=m-p; p=p-m; p=p+z; p=z+p; p=z-p; p=p-z; q=q+r; q=q-r; upolynomial_<ZZ> u; assign<QQ,ZZ,QQ>(u,r); std::map<variable,QQ> mq; assign<QQ,ZZ,QQ,grlex>(p,mq); }
}
template class clpoly::Ideal<QQ,grlex>;
template class clpoly::basic_monomial<grlex>;
template class clpoly::graph<std::string>;
template class clpoly::basic_polynomial<monomial,ZZ,grlex>;

// equality of order objects
template<class C> bool drv_orders(const C&a,const C&b){ return (a==b)|(a!=b); }
template bool drv_orders(const lex_<less>&,const lex_<less>&);
template bool drv_orders(const lex_<custom_var_order>&,const lex_<custom_var_order>&);
template bool drv_orders(const lex_<univariate_order>&,const lex_<univariate_order>&);
template bool drv_orders(const grlex_<less>&,const grlex_<less>&);
template bool drv_orders(const less&,const less&);
template bool drv_orders(const custom_var_order&,const custom_var_order&);
template bool drv_orders(const univariate_order&,const univariate_order&);
