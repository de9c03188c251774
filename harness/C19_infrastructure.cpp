// C19 - observers, factories and property holders
#include "params.h"
#include <list>
#include "ode_num_int/infra/def_prop_class.h"
#include "ode_num_int/infra/def_getset.h"
#include "ode_num_int/infra/cxx_zeroinit.h"
#include "ode_num_int/infra/cxx_mock_ptr.h"

// ---- sequences of identified elements
typedef std::vector<std::pair<int,int>> Seq;
template<class E> static Seq content( const E& e ) { Seq r; for( auto& q : e ) r.push_back( { q.first, q.second } ); return r; }
static std::string str2( const Seq& s ) { std::ostringstream o; for( auto& e : s ) o << " " << e.first << ":" << e.second; return o.str(); }
PBT( elements, 30000, 400000, "histories of up to 40 additions, removals by identifier, clearings, scoped additions (finished early, moved, destroyed in any order) on a sequence of elements; oracle: a list of (identifier, element) pairs; identifiers are unique among the present elements and the order is that of addition; non-trivial: elements were removed from the middle, and a scoped one ended" )
{
    cxx::IdentifiedElements<int> e; Seq m; typedef cxx::ScopedIdentifiedElement<int> S; std::vector<std::pair<std::unique_ptr<S>,int>> scoped; int next = 100; bool middle = false, ended = false; int n = c.range( 1, 40 );
    auto erase = [&]( int id ) { for( size_t i = 0; i < m.size(); ++i ) if( m[i].first == id ) { if( i + 1 < m.size() ) middle = true; m.erase( m.begin() + i ); return; } };
    auto added = [&]( int v ) -> int { Seq now = content( e ); EXPECT( now.size() == m.size() + 1 && now.back().second == v && Seq( now.begin(), now.end()-1 ) == m, "add", "after adding " << v << " to" << str2( m ) << ":" << str2( now ) ); for( auto& q : m ) EXPECT( q.first != now.back().first, "id", "identifier " << q.first << " is given twice" ); m = now; return now.back().first; };
    for( int k = 0; k < n; ++k ) {
        switch( c.range( 0, 6 ) ) {
        case 0: case 1: { int v = next++; c.log << "add " << v << "; "; int id = e.add( v ); EXPECT( added( v ) == id, "id", "add returned " << id << ", content" << str2( m ) ); break; }
        case 2: { std::vector<int> ids; for( auto& q : m ) { bool s = false; for( auto& p : scoped ) if( p.second == q.first ) s = true; if( !s ) ids.push_back( q.first ); } if( ids.empty() ) break; int id = c.pick( ids ); c.log << "remove #" << id << "; "; e.remove( id ); erase( id ); break; }
        case 3: { int v = next++; c.log << "scoped " << v << "; "; std::unique_ptr<S> p( c.flip() ? new S( e, v ) : new S( cxx::makeScopedIdentifiedElement( e, v ) ) ); int id = added( v ); scoped.push_back( { std::move( p ), id } ); break; }
        case 4: if( !scoped.empty() ) { size_t i = c.range( 0, scoped.size()-1 ); int id = scoped[i].second; switch( c.range( 0, 2 ) ) {
                case 0: c.log << "end of #" << id << "; "; scoped.erase( scoped.begin() + i ); erase( id ); ended = true; break;
                case 1: c.log << "finish #" << id << "; "; scoped[i].first->finish(); EXPECT( ( erase( id ), content( e ) == m ), "finish", "after finish:" << str2( content( e ) ) << ", expected" << str2( m ) ); if( c.flip() ) scoped[i].first->finish(); scoped.erase( scoped.begin() + i ); ended = true; break;
                default: { c.log << "move #" << id << "; "; std::unique_ptr<S> p( new S( std::move( *scoped[i].first ) ) ); EXPECT( content( e ) == m, "move", "after a move:" << str2( content( e ) ) << ", expected" << str2( m ) ); if( c.flip() ) scoped[i].first->finish(); scoped[i].first = std::move( p ); } } } break;
        case 5: if( scoped.empty() && c.chance( 1, 4 ) ) { c.log << "clear; "; e.clear(); m.clear(); } break;
        default: if( !m.empty() ) { size_t i = c.range( 0, m.size()-1 ); int v = next++; c.log << "change #" << m[i].first << " to " << v << "; "; auto it = e.begin(); std::advance( it, i ); it->second = v; m[i].second = v; }
        }
        EXPECT( content( e ) == m && content( const_cast<const cxx::IdentifiedElements<int>&>( e ) ) == m, "content", str2( content( e ) ) << ", expected" << str2( m ) ); EXPECT( e.empty() == m.empty(), "empty", "empty() is " << e.empty() << " for" << str2( m ) );
    }
    while( !scoped.empty() ) { size_t i = c.range( 0, scoped.size()-1 ); erase( scoped[i].second ); scoped.erase( scoped.begin() + i ); EXPECT( content( e ) == m, "content", "at the end:" << str2( content( e ) ) << ", expected" << str2( m ) ); ended = true; }
    c.nontrivial( middle && ended );
}

PBT( observers, 30000, 400000, "trees of up to 5 callback sequences (plain or with boolean results), each with up to 5 own callbacks and forwards to later ones, changed between invocations with random arguments; oracle: every callback present is invoked once per path, in order of addition, with the arguments given; the boolean result is the logical OR of all; non-trivial: at least one forward and three invocations" )
{
    typedef std::tuple<int,int,double,const Vec*> Ev; std::vector<Ev> log; std::vector<Ev> want; bool term = c.flip(), fwd = false; int n = c.range( 1, 5 );
    typedef cxx::Observers<int,double,const Vec&> O; typedef cxx::TerminatingObservers<int,double,const Vec&> B; std::vector<O> o( n ); std::vector<B> b( n ); struct Node { int id, cb, to; bool res; }; std::vector<std::vector<Node>> m( n ); int cbs = 0; std::map<int,bool> res;
    std::function<bool( int, int, double, const Vec& )> model = [&]( int i, int k, double x, const Vec& v ) { bool r = false; for( auto& q : m[i] ) if( q.to >= 0 ) r = model( q.to, k, x, v ) || r; else { want.push_back( Ev( q.cb, k, x, &v ) ); r = r || res[q.cb]; } return r; };
    int calls = 0; for( int k = c.range( 3, 25 ); k-- > 0; ) {
        int i = c.range( 0, n-1 ); switch( c.range( 0, 4 ) ) {
        case 0: case 1: { if( m[i].size() > 5 ) break; int cb = cbs++; bool r = res[cb] = c.chance( 1, 4 ); c.log << "add " << cb << ( r ? " (true)" : "" ) << " to " << i << "; "; auto f = [&log,&res,cb]( int a, double x, const Vec& v ) { log.push_back( Ev( cb, a, x, &v ) ); return res[cb]; }; int id = term ? b[i].add( f ) : o[i].add( f ); m[i].push_back( { id, cb, -1, r } ); break; }
        case 2: { if( i + 1 >= n || m[i].size() > 5 ) break; int j = c.range( i+1, n-1 ); c.log << "forward " << i << " to " << j << "; "; int id = term ? cxx::forwardObservers( b[i], b[j] ) : cxx::forwardObservers( o[i], o[j] ); m[i].push_back( { id, -1, j, false } ); fwd = true; break; }
        case 3: { if( m[i].empty() ) break; size_t q = c.range( 0, m[i].size()-1 ); c.log << "remove #" << m[i][q].id << " of " << i << "; "; if( term ) b[i].remove( m[i][q].id ); else o[i].remove( m[i][q].id ); m[i].erase( m[i].begin() + q ); break; }
        default: { int a = c.range( -5, 5 ); double x = c.num(); Vec v = c.nums( 2 ); log.clear(); want.clear(); c.log << "call " << i << "; "; bool r = model( i, a, x, v ), g = false; if( term ) g = const_cast<const B&>( b[i] )( a, x, v ); else const_cast<const O&>( o[i] )( a, x, v );
            std::ostringstream w, h; for( auto& e : want ) w << " " << std::get<0>( e ); for( auto& e : log ) h << " " << std::get<0>( e ); EXPECT( log == want, "invoked", "callbacks invoked:" << h.str() << ", expected" << w.str() << " (with the same arguments)" ); if( term ) EXPECT( g == r, "result", "result " << g << ", expected " << r ); calls += want.size() > 0; } }
    }
    c.nontrivial( fwd && calls >= 3 ); c.label( term ? "boolean" : "plain" );
}

// ---- factories
static int g_case = 0;
template<int N> struct Thing : Factory<Thing<N>> { std::string made; };
template<int N> struct Mixed : Thing<N>, FactoryMixin<Mixed<N>,Thing<N>> { Mixed() { this->made = "mixed"; } };
template<int N> struct Other : Thing<N>, FactoryMixin<Other<N>,Thing<N>> { Other() { this->made = "other"; } };
template<int N> static void useFactory( pbt::Ctx& c, const std::string& suffix, std::map<std::string,std::string>& m, int op )
{
    typedef Factory<Thing<N>> F; static const std::vector<std::string> names{ "", "a", "b", "A", "ab", "z y", "rk4", "\xc3\xa9" }; std::string id = c.pick( names ) + suffix;
    switch( op ) {
    case 0: { if( m.count( id ) ) break; c.log << N << ": register '" << id << "'; "; if( c.range( 0, 3 ) != 1 ) { std::string tag = "made as " + id; F::registerType( id, [tag] { auto r = std::make_shared<Thing<N>>(); r->made = tag; return r; } ); m[id] = tag; } else if( c.flip() ) { typename Mixed<N>::Registrator r( id ); m[id] = "mixed"; EXPECT( Mixed<N>::staticTypeId() == id && Mixed<N>().typeId() == id, "type id", "type identifier of the class registered as '" << id << "' is '" << Mixed<N>::staticTypeId() << "'" ); std::shared_ptr<Thing<N>> t = FactoryMixin<Mixed<N>,Thing<N>>::newInstance(); EXPECT( TypeIdGetter<Thing<N>>::typeId( t ) == id, "type id", "identifier of an instance is '" << TypeIdGetter<Thing<N>>::typeId( t ) << "'" ); } else { std::string before = Mixed<N>::staticTypeId(); typename Other<N>::Registrator r( id ); m[id] = "other"; EXPECT( Other<N>::staticTypeId() == id && Mixed<N>::staticTypeId() == before, "type id", "identifiers after registering another class as '" << id << "'" ); } break; }
    case 1: { auto it = m.find( id ); c.log << N << ": new '" << id << "'; "; if( it == m.end() ) { bool thrown = false; std::string what; try { F::newInstance( id ); } catch( const cxx::exception& e ) { thrown = true; what = e.what(); } EXPECT( thrown, "unknown", "instance of the unregistered type '" << id << "'" ); EXPECT( what.find( id ) != std::string::npos, "message", "message about the unknown type '" << id << "' is: " << what ); } else { auto p = F::newInstance( id ), q = F::newInstance( id ); EXPECT( p && q && p != q && p->made == it->second && q->made == it->second, "instance", "instance of '" << id << "' is " << ( p ? p->made : "null" ) << ", expected " << it->second ); if( it->second.compare( 0, 4, "made" ) == 0 ) EXPECT( TypeIdGetter<Thing<N>>::typeId( p ) == "", "type id", "an instance without type identifier has one" ); } break; }
    default: { EXPECT( F::isTypeRegistered( id ) == ( m.count( id ) > 0 ), "registered", "'" << id << "' is " << ( m.count( id ) ? "" : "not " ) << "registered, reported otherwise" ); std::vector<std::string> l; for( auto& t : F::registeredTypes() ) if( t.size() >= suffix.size() && t.compare( t.size() - suffix.size(), suffix.size(), suffix ) == 0 ) l.push_back( t ); std::vector<std::string> w; for( auto& e : m ) w.push_back( e.first ); std::sort( l.begin(), l.end() ); EXPECT( l == w, "list", l.size() << " types are reported as registered, expected " << w.size() ); } }
}
PBT( factory, 4000, 20000, "histories of registrations (by generator and by registrator objects), instantiations and queries on three interfaces with random type identifiers; oracle: a map from identifiers to makers for every interface; unknown identifiers are refused by an exception naming them; non-trivial: the same identifier is registered with two interfaces, and instantiated" )
{
    std::string suffix = "#" + std::to_string( ++g_case ) ; std::map<std::string,std::string> m[3]; int n = c.range( 3, 25 ); while( n-- > 0 ) { int op = c.range( 0, 2 ); switch( c.range( 0, 2 ) ) { case 0: useFactory<0>( c, suffix, m[0], op ); break; case 1: useFactory<1>( c, suffix, m[1], op ); break; default: useFactory<2>( c, suffix, m[2], op ); } }
    bool twice = false; for( auto& e : m[0] ) if( m[1].count( e.first ) || m[2].count( e.first ) ) twice = true; c.nontrivial( twice );
}
template<class I> static void component( pbt::Ctx& c, const char *what, const std::vector<std::string>& known )
{
    typedef Factory<I> F; auto types = F::registeredTypes(); for( auto& k : known ) EXPECT( F::isTypeRegistered( k ), "missing", what << " '" << k << "' is not registered" ); if( types.empty() ) return; std::string id = c.pick( types ); c.log << what << " " << id << "; "; auto a = F::newInstance( id ), b = F::newInstance( id ); EXPECT( a && b && a != b, "instance", what << " " << id << ": instances " << a.get() << " and " << b.get() );
    auto g = dynamic_cast<TypeIdGetter<I>*>( a.get() ); EXPECT( g && g->typeId() == id && TypeIdGetter<I>::typeId( a ) == id, "component id", what << " created as '" << id << "' says it is '" << ( g ? g->typeId() : "" ) << "'" );
}
PBT( components, 4000, 20000, "every type registered by the library, by interface: instances are new objects that report the identifier they were created with; the documented types are there" )
{
    switch( c.range( 0, 15 ) ) {
    case 0: case 1: component<Solver>( c, "solver", { "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "rosenbrock_w1", "rosenbrock_sw2_4", "gragg", "extrapolator", "i_euler" } ); break; case 2: component<Rhs>( c, "model", { "oscillator", "coupled_nl_osc", "stiff_1d", "sliding_point", "bouncing_ball" } ); break; case 3: component<OdeInitState<VD>>( c, "initial state", { "specified" } ); break;
    case 4: component<OdeSolverOutputOption<VD>>( c, "output", { "stats_full", "con_general", "con_solution", "con_solution_columnwise" } ); break; case 5: component<NewtonSolverInterface<VD>>( c, "algebraic solver", { "newton" } ); break; case 6: component<NewtonIterationPerformer<VD>>( c, "iteration performer", {} ); break; case 7: component<NewtonDescentDirection<VD>>( c, "descent direction", { "simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const" } ); break;
    case 8: component<JacobianProvider<VD>>( c, "Jacobian", { "default", "sparse" } ); break; case 9: component<JacobianTrimmer<VD>>( c, "trimmer", { "width", "threshold" } ); break; case 10: component<NewtonLinearSearch<VD>>( c, "linear search", {} ); break; case 11: component<ErrorEstimator<VD>>( c, "error estimator", {} ); break; case 12: component<OdeEventController<VD>>( c, "event controller", { "linear" } ); break; case 13: component<OdeStepSizeController<VD>>( c, "step size controller", { "simple" } ); break; case 14: component<ErrorNormCalculator<VD>>( c, "norm", { "inf" } ); break; default: component<ExtrapolatorStepSequence>( c, "step sequence", { "romberg", "bulirsch", "harmonic" } );
    }
    c.nontrivial();
}

// ---- property holders
CTM_DEF_PROP_CLASS( PlainProp, std::string, const std::string&, prop, setProp )
CTM_DEF_NOTIFIED_PROP_CLASS( NotedProp, std::string, const std::string&, prop, setProp, onChange, offChange )
CTM_DEF_PROP_REF_CLASS( RefProp, std::string, prop, constProp )
class Fields { CTM_DECL_THIS_CLASS_ALIAS( Fields ) CTM_DECL_SIMPLE_CLASS_FIELD( int, a, setA, 7 ) CTM_DECL_SIMPLE_CLASS_FIELD( std::string, b, setB, "x" ) };
PBT( properties, 15000, 200000, "histories of reading, setting and observing (callbacks with and without argument, added in any of the three ways and removed by identifier) on property holders; oracle: a variable and a list of callbacks - each is invoked once per setting, in order, after the value has changed, with the new value; non-trivial: at least two callbacks at a setting, and one removed" )
{
    auto gen = [&] { return std::string( c.range( 0, 3 ), char( 'a' + c.range( 0, 5 ) ) ); }; std::string v = gen(); bool init = c.flip(); std::unique_ptr<PlainProp> p( init ? new PlainProp( v ) : new PlainProp ); std::unique_ptr<NotedProp> q( init ? new NotedProp( v ) : new NotedProp ); std::unique_ptr<RefProp> r( init ? new RefProp( v ) : new RefProp ); Fields f; int fa = 7; std::string fb = "x"; if( !init ) v = ""; std::string cur = v;
    std::vector<std::pair<int,int>> cb; std::vector<int> got; int next = 0; bool many = false, removed = false; std::string seen; bool ok = true; NotedProp *self = q.get();
    for( int k = c.range( 1, 25 ); k-- > 0; ) {
        switch( c.range( 0, 4 ) ) {
        case 0: case 1: { std::string w = gen(); c.log << "set " << w << "; "; got.clear(); cur = w; ok = true; p->setProp( w ); q->setProp( w ); r->prop() = w; std::vector<int> want; for( auto& e : cb ) want.push_back( e.second ); EXPECT( got == want, "notified", "callbacks " << str( got ) << " after setting, expected " << str( want ) ); EXPECT( ok, "value", "a callback sees the wrong value" ); many = many || want.size() > 1; fa = c.range( -9, 9 ); fb = w; EXPECT( &f.setA( fa ).setB( fb ) == &f, "chain", "setters of fields do not return the object" ); break; }
        case 2: { int n = next++; c.log << "observe " << n << "; "; auto f0 = [&got,n,&ok,&cur,self] { got.push_back( n ); ok = ok && self->prop() == cur; }; auto f1 = [&got,n,&ok,&cur,self]( const std::string& x ) { got.push_back( n ); ok = ok && x == cur && self->prop() == cur; }; int id = 0; switch( c.range( 0, 3 ) ) { case 0: id = q->onChange( f0 ); break; case 1: id = q->onChange( f1 ); break; case 2: id = q->onChange_0( f0 ); break; default: id = q->onChange_1( f1 ); } cb.push_back( { id, n } ); break; }
        case 3: if( !cb.empty() ) { size_t i = c.range( 0, cb.size()-1 ); c.log << "forget " << cb[i].second << "; "; q->offChange( cb[i].first ); cb.erase( cb.begin() + i ); removed = true; } break;
        default: got.clear();
        }
        EXPECT( p->prop() == cur && p->propConstRef() == cur && q->prop() == cur && q->propConstRef() == cur && r->prop() == cur && const_cast<const RefProp&>( *r ).prop() == cur && r->constProp() == cur, "get", "value '" << q->prop() << "', expected '" << cur << "'" ); EXPECT( f.a() == fa && f.b() == fb, "field", "fields " << f.a() << " " << f.b() << ", expected " << fa << " " << fb );
    }
    c.nontrivial( many && removed );
}
template<class X> static void zeroInit( pbt::Ctx& c )
{
    alignas( cxx::zero_init<X> ) unsigned char mem[sizeof( cxx::zero_init<X> )]; std::memset( mem, 0xa5, sizeof mem ); auto z = new( mem ) cxx::zero_init<X>; X x = 0; EXPECT( *z == 0, "zero", "initial value is not zero" );
    for( int k = c.range( 1, 15 ); k-- > 0; ) { X a = X( c.range( 1, 6 ) ), r = 0, w = 0; if( x > X( 1000 ) ) { *z = a; x = a; } switch( c.range( 0, 8 ) ) { case 0: r = ( *z = a ); w = ( x = a ); break; case 1: r = ( *z += a ); w = ( x += a ); break; case 2: if( x < a ) continue; r = ( *z -= a ); w = ( x -= a ); break; case 3: r = ( *z *= a ); w = ( x *= a ); break; case 4: r = ( *z /= a ); w = ( x /= a ); break; case 5: r = ++*z; w = ++x; break; case 6: r = ( *z )++; w = x++; break; case 7: if( x < 1 ) continue; if( c.flip() ) { r = --*z; w = --x; } else { r = ( *z )--; w = x--; } break; default: { cxx::zero_init<X> y( *z ), u( a ); r = y; w = x; EXPECT( X( u ) == a, "zero", "initialized with a value" ); } } EXPECT( r == w && X( *z ) == x, "zero", "value " << X( *z ) << " (result " << r << "), expected " << x << " (" << w << ")" ); c.nontrivial(); }
}
PBT( values, 15000, 100000, "histories of arithmetic operations on zero-initialized numbers and pointers placed in dirty memory, and per-type storage cells; oracle: the plain type; cells are told apart by both types, and start default-constructed; non-trivial: at least one operation" )
{
    switch( c.range( 0, 6 ) ) { case 0: zeroInit<int>( c ); break; case 1: zeroInit<unsigned>( c ); break; case 2: zeroInit<long>( c ); break; case 3: zeroInit<double>( c ); break; case 4: zeroInit<float>( c ); break;
    case 5: { cxx::uint0 z; unsigned x = 0; for( int k = 0; k < 6; ++k ) { unsigned a = c.range( 1, 255 ), r, w; switch( c.range( 0, 2 ) ) { case 0: r = ( z |= a ); w = ( x |= a ); break; case 1: r = ( z &= a ); w = ( x &= a ); break; default: r = ( z %= a ); w = ( x %= a ); } EXPECT( r == w && z == x, "bits", "value " << unsigned( z ) << ", expected " << x ); } int a[20]; alignas( cxx::zero_init_ptr<int> ) unsigned char mem[sizeof( cxx::zero_init_ptr<int> )]; std::memset( mem, 0xa5, sizeof mem ); auto& p = *new( mem ) cxx::zero_init_ptr<int>; EXPECT( (int*)p == nullptr, "pointer", "a pointer is not null" ); p = a + 10; int *q = a + 10; for( int k = 0; k < 3; ++k ) { int *r, *w; switch( c.range( 0, 5 ) ) { case 0: r = ( p += 2 ); w = ( q += 2 ); break; case 1: r = ( p -= 2 ); w = ( q -= 2 ); break; case 2: r = ++p; w = ++q; break; case 3: r = --p; w = --q; break; case 4: r = p++; w = q++; break; default: r = p--; w = q--; } EXPECT( r == w && (int*)p == q && p.operator->() == q, "pointer", "a pointer is " << ( (int*)p - a ) << ", expected " << ( q - a ) ); } cxx::mock_ptr<std::string> mp( "ab" ); mp->push_back( 'c' ); const auto& cm = mp; EXPECT( *mp == "abc" && *cm == "abc" && cm->size() == 3, "mock", "stored value is " << *mp ); c.nontrivial(); break; }
    default: { struct A; struct B; static int ia = 0, ib = 0; static std::string sa; for( int k = 0; k < 8; ++k ) { int v = c.range( 0, 99 ); switch( c.range( 0, 2 ) ) { case 0: PerTypeStorage::value<Thing<7>,int>() = ia = v; break; case 1: PerTypeStorage::value<Thing<8>,int>() = ib = v; break; default: PerTypeStorage::value<Thing<7>,std::string>() = sa = std::to_string( v ); } EXPECT( ( PerTypeStorage::value<Thing<7>,std::string>() == sa && PerTypeStorage::value<Thing<7>,int>() == ( ia ? ia : PerTypeStorage::value<Thing<7>,int>() ) && PerTypeStorage::value<Thing<8>,int>() == ( ib ? ib : PerTypeStorage::value<Thing<8>,int>() ) && PerTypeStorage::value<Thing<9>,std::string>().empty() ), "storage", "a cell of per-type storage has another value than stored" ); EXPECT( ( (void*)&PerTypeStorage::value<Thing<7>,int>() != (void*)&PerTypeStorage::value<Thing<8>,int>() ), "storage", "two types share a cell" ); } c.nontrivial(); } }
}
