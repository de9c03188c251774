// C05 - adapters of mappings: each is compared with the composition of functions it stands for
#include "alg_common.h"
#include "ode_num_int/alg/computeJacobian.h"
#include "ode_num_int/alg/VectorNarrowingMapping.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"
#include "ode_num_int/alg/DiagonalMapping.h"
#include "ode_num_int/alg/MappingNormalizer.h"
#include <functional>

typedef VectorMapping<VD> M; typedef std::shared_ptr<M> MP;
struct Lazy : VectorReorderingMapping<VD> { Ids in, out; int inits = 0; void maybeInit() override { if( inits++ == 0 ) { setInputOrdering( in ); setOutputOrdering( out ); } } };

struct Built { MP m; std::function<Vec(const Vec&)> ref; unsigned n, k; Ids iids, oids; std::vector<MP> keep; };

static Ids genIndices( pbt::Ctx& c, unsigned n )   // unordered, with repetitions
{
    Ids r; if( n == 0 ) return r;
    int k = c.range( 0, std::min( n + 1, n > 8 ? n : 5u ) ); for( int i = 0; i < k; ++i ) r.push_back( c.range( 0, n-1 ) );
    return r;
}
template< class T > static std::vector<T> without( const std::vector<T>& x, const Ids& dis )
{ std::set<unsigned> s( dis.begin(), dis.end() ); std::vector<T> r; for( unsigned i = 0; i < x.size(); ++i ) if( !s.count( i ) ) r.push_back( x[i] ); return r; }
static std::set<unsigned> asSet( const Ids& v ) { return std::set<unsigned>( v.begin(), v.end() ); }
static bool eqV( const V& a, const V& b ) { return same( a, toVec( b ) ); }

static void evaluate( pbt::Ctx& c, const char *key, const Built& b, int points = 2 )
{
    EXPECT( b.m->inputSize() == b.n && b.m->outputSize() == b.k, key, "reported sizes " << b.m->inputSize() << " and " << b.m->outputSize() << ", expected " << b.n << " and " << b.k );
    EXPECT( b.m->inputIds() == b.iids, key, "input ids " << str( b.m->inputIds() ) << ", expected " << str( b.iids ) );
    EXPECT( b.m->outputIds() == b.oids, key, "output ids " << str( b.m->outputIds() ) << ", expected " << str( b.oids ) );
    V reused( c.range( 0, 4 ) );
    for( int t = 0; t < points; ++t ) {
        Vec x( b.n ); for( auto& v : x ) v = c.range( -4, 4 );
        Vec y = b.ref( x ); V xv = toV( x );
        V r1 = b.m->map( xv ), r2 = (*b.m)( xv ); b.m->map( reused, xv );
        EXPECT( same( xv, x ), key, "the argument was changed" );
        for( const V *r : std::vector<const V*>{ &r1, &r2, &reused } ) {
            EXPECT( r->size() == y.size(), key, "value has " << r->size() << " elements, expected " << y.size() );
            for( unsigned i = 0; i < y.size(); ++i ) EXPECT( close( (*r)[i], y[i], std::fabs( y[i] ) + 1, 1e-12 ), key, "value at " << str( x ) << " is " << str( toVec( *r ) ) << ", expected " << str( y ) );
        }
    }
}

static Built base( pbt::Ctx& c, unsigned n, unsigned k )
{
    auto pm = std::make_shared<PolyMapping>(); pm->p = genPoly( c, n, k, 3*k );
    for( unsigned i = 0; i < n; ++i ) pm->iids.push_back( 100 + i*7 % 50 + i ); for( unsigned i = 0; i < k; ++i ) pm->oids.push_back( 2000 + i*3 );
    c.log << pm->p.str();
    Poly p = pm->p;
    return Built{ pm, [p]( const Vec& x ) { return p( x ); }, n, k, pm->iids, pm->oids, { pm } };
}

static Built narrow( pbt::Ctx& c, const Built& b, bool inputsToo, bool outputsToo )
{
    auto nm = std::make_shared<VectorNarrowingMapping<VD>>(); nm->setMapping( b.m );
    Ids di = inputsToo ? genIndices( c, b.n ) : Ids(), dOut = outputsToo ? genIndices( c, b.k ) : Ids();
    Vec st( b.n ); for( auto& v : st ) v = c.range( -3, 3 );
    if( c.chance( 1, 3 ) && b.n ) { nm->setInputNarrowing( Ids( 1, c.range( 0, b.n-1 ) ), toV( st ) ); st[0] += 1; }  // replaced below
    bool setIn = inputsToo || c.flip(); if( !setIn ) { di.clear(); nm->setInputNarrowing( Ids(), toV( st ) ); } else nm->setInputNarrowing( di, toV( st ) );
    nm->setOutputNarrowing( dOut );
    c.log << " | narrow in" << str( di ) << " state" << str( st ) << " out" << str( dOut );
    EXPECT( asSet( nm->disabledInputIndices() ) == asSet( di ) && nm->disabledInputIndices().size() == asSet( di ).size(), "narrowing", "disabledInputIndices() is " << str( nm->disabledInputIndices() ) );
    EXPECT( asSet( nm->disabledOutputIndices() ) == asSet( dOut ), "narrowing", "disabledOutputIndices() is " << str( nm->disabledOutputIndices() ) );
    EXPECT( eqV( nm->stateForInputNarrowing(), toV( st ) ), "narrowing", "stateForInputNarrowing()" );
    // out-of-range indices are rejected and leave the narrowing as it was
    if( c.flip() ) {
        Ids bad = di; bad.push_back( b.n + c.range( 0, 2 ) ); EXPECT_THROW( nm->setInputNarrowing( bad, V( b.n ) ), "narrowing-reject", "input indices " << str( bad ) );
        Ids bo = dOut; bo.insert( bo.begin(), b.k + c.range( 0, 2 ) ); EXPECT_THROW( nm->setOutputNarrowing( bo ), "narrowing-reject", "output indices " << str( bo ) );
    }
    auto widen = [di, st]( const Vec& x ) { std::set<unsigned> s( di.begin(), di.end() ); Vec w( st.size() ); unsigned k = 0; for( unsigned i = 0; i < w.size(); ++i ) w[i] = s.count( i ) ? st[i] : x[k++]; return w; };
    // narrow / widen
    Vec full( b.n ); for( auto& v : full ) v = c.num(); Vec nar = without( full, di );
    EXPECT( same( nm->narrowInput( toV( full ) ), nar ), "narrowing", "narrowInput(" << str( full ) << ") is " << str( toVec( nm->narrowInput( toV( full ) ) ) ) << ", expected " << str( nar ) );
    V tmp( c.range( 0, 3 ) ); nm->narrowInput( tmp, toV( full ) ); EXPECT( same( tmp, nar ), "narrowing", "narrowInput(dst,src)" );
    EXPECT( same( nm->widenInput( toV( nar ) ), widen( nar ) ), "narrowing", "widenInput(" << str( nar ) << ") is " << str( toVec( nm->widenInput( toV( nar ) ) ) ) << ", expected " << str( widen( nar ) ) );
    EXPECT( same( nm->narrowInput( nm->widenInput( toV( nar ) ) ), nar ), "narrowing", "narrowInput(widenInput(x)) differs from x" );
    Vec fo( b.k ); for( auto& v : fo ) v = c.num(); 
    EXPECT( same( nm->narrowOutput( toV( fo ) ), without( fo, dOut ) ), "narrowing", "narrowOutput(" << str( fo ) << ") is " << str( toVec( nm->narrowOutput( toV( fo ) ) ) ) );
    nm->narrowOutput( tmp, toV( fo ) ); EXPECT( same( tmp, without( fo, dOut ) ), "narrowing", "narrowOutput(dst,src)" );
    c.nontrivial( asSet( di ) != asSet( dOut ) && di.size() + dOut.size() >= 2 ); c.label( "narrow in+out", !di.empty() && !dOut.empty() );
    auto f = b.ref; auto k = b.keep; k.push_back( nm );
    return Built{ nm, [f, widen, dOut]( const Vec& x ) { return without( f( widen( x ) ), dOut ); }, unsigned( b.n - asSet( di ).size() ), unsigned( b.k - asSet( dOut ).size() ), without( b.iids, di ), without( b.oids, dOut ), k };
}

static Built reorder( pbt::Ctx& c, const Built& b )
{
    Ids pi = c.perm( b.n ), po = c.perm( b.k ); c.log << " | reorder in" << str( pi ) << " out" << str( po );
    std::shared_ptr<VectorReorderingMapping<VD>> rm;
    if( c.chance( 1, 3 ) ) { auto l = std::make_shared<Lazy>(); l->in = pi; l->out = po; rm = l; }
    else { rm = std::make_shared<VectorReorderingMapping<VD>>(); if( c.flip() && b.n ) rm->setInputOrdering( c.perm( b.n ) ); rm->setInputOrdering( pi ); rm->setOutputOrdering( po ); }
    rm->setMapping( b.m );
    int first = c.range( 0, 4 );   // whichever accessor comes first must see the ordering
    if( first == 0 ) EXPECT( rm->inputOrdering() == pi, "reordering", "inputOrdering()" );
    if( first == 1 ) EXPECT( rm->outputOrdering() == po, "reordering", "outputOrdering()" );
    auto ord = []( const Vec& x, const Ids& p ) { Vec r( x.size() ); for( unsigned i = 0; i < x.size(); ++i ) r[i] = x[p[i]]; return r; };
    auto unord = []( const Vec& x, const Ids& p ) { Vec r( x.size() ); for( unsigned i = 0; i < x.size(); ++i ) r[p[i]] = x[i]; return r; };
    Vec x( b.n ), y( b.k ); for( auto& v : x ) v = c.num(); for( auto& v : y ) v = c.num();
    if( first == 2 ) EXPECT( same( rm->orderOutput( toV( y ) ), ord( y, po ) ), "reordering", "orderOutput" );
    if( first == 3 ) EXPECT( same( rm->unorderOutput( toV( y ) ), unord( y, po ) ), "reordering", "unorderOutput" );
    M & asM = *rm; if( first == 4 ) EXPECT( same( asM.map( toV( x ) ), ord( b.ref( unord( x, pi ) ), po ) ), "reordering", "map" );
    EXPECT( same( rm->orderInput( toV( x ) ), ord( x, pi ) ), "reordering", "orderInput(" << str( x ) << ")" );
    EXPECT( same( rm->unorderInput( toV( x ) ), unord( x, pi ) ), "reordering", "unorderInput(" << str( x ) << ")" );
    EXPECT( same( rm->unorderInput( rm->orderInput( toV( x ) ) ), x ) && same( rm->orderInput( rm->unorderInput( toV( x ) ) ), x ), "reordering", "ordering and unordering the input are not inverse" );
    EXPECT( same( rm->unorderOutput( rm->orderOutput( toV( y ) ) ), y ) && same( rm->orderOutput( rm->unorderOutput( toV( y ) ) ), y ), "reordering", "ordering and unordering the output are not inverse" );
    V t( c.range( 0, 3 ) ); rm->orderOutput( t, toV( y ) ); EXPECT( same( t, ord( y, po ) ), "reordering", "orderOutput(dst,x)" ); rm->unorderOutput( t, toV( y ) ); EXPECT( same( t, unord( y, po ) ), "reordering", "unorderOutput(dst,x)" );
    rm->orderInput( t, toV( x ) ); EXPECT( same( t, ord( x, pi ) ), "reordering", "orderInput(dst,x)" ); rm->unorderInput( t, toV( x ) ); EXPECT( same( t, unord( x, pi ) ), "reordering", "unorderInput(dst,x)" );
    EXPECT( rm->inputOrdering() == pi && rm->outputOrdering() == po, "reordering", "orderings reported: " << str( rm->inputOrdering() ) << str( rm->outputOrdering() ) );
    Ids ii( b.n ), oo( b.k ); for( unsigned i = 0; i < b.n; ++i ) ii[i] = b.iids[pi[i]]; for( unsigned i = 0; i < b.k; ++i ) oo[i] = b.oids[po[i]];
    auto f = b.ref; auto k = b.keep; k.push_back( rm );
    Ids ip( b.n ); for( unsigned i = 0; i < b.n; ++i ) ip[pi[i]] = i;
    c.nontrivial( b.n >= 3 && ip != pi ); c.label( "reorder non-involution", ip != pi );
    return Built{ rm, [f, pi, po, ord, unord]( const Vec& x ) { return ord( f( unord( x, pi ) ), po ); }, b.n, b.k, ii, oo, k };
}

static Built scale( pbt::Ctx& c, const Built& b )   // needs n == k
{
    Vec d( b.n ); for( auto& v : d ) v = c.range( 1, 4 )*( c.chance( 1, 4 ) ? -1 : 1 )*( c.chance( 1, 3 ) ? .25 : 1 );
    auto mn = std::make_shared<MappingNormalizer<VD>>(); mn->setMapping( b.m ); mn->setDiagonalMapping( std::make_shared<DiagonalMapping<VD>>( toV( d ) ) );
    c.log << " | scaled by " << str( d );
    auto pre = std::make_shared<std::vector<Vec>>(), post = std::make_shared<std::vector<Vec>>();
    M *raw = mn.get(); bool ok = true;
    mn->vectorMappingPreObservers.add( [pre]( const V& x, const M* ) { pre->push_back( toVec( x ) ); } );
    mn->vectorMappingPostObservers.add( [post]( const V& x, const V& y, const M* ) { post->push_back( toVec( x ) ); post->push_back( toVec( y ) ); } );
    Vec x( b.n ); for( auto& v : x ) v = c.range( -3, 3 ); V y = raw->map( toV( x ) );
    EXPECT( pre->size() == 1 && (*pre)[0] == x && post->size() == 2 && (*post)[0] == x && (*post)[1] == toVec( y ), "observers", "observers of the scaled mapping did not see its argument and value once" );
    auto f = b.ref; auto k = b.keep; k.push_back( mn );
    return Built{ mn, [f, d]( const Vec& x ) { Vec a = x; for( unsigned i = 0; i < a.size(); ++i ) a[i] *= d[i]; Vec y = f( a ); for( unsigned i = 0; i < y.size(); ++i ) y[i] *= d[i]; return y; }, b.n, b.k, b.iids, b.oids, k };
}

PBT( adapters, 60000, 600000, "a random polynomial mapping wrapped into 1..3 adapters (narrowing, reordering, diagonal scaling, in any nesting) and evaluated at random points, with ids, sizes, "
     "narrow/widen and order/unorder directly; oracle: composition of the reference functions; non-trivial: differing sets of disabled inputs and outputs, or a reordering that is not its own inverse" )
{
    unsigned n = c.size( 0, 6, 25 ), k = c.flip() ? n : c.size( 0, 6, 25 );
    Built b = base( c, n, k );
    int depth = c.range( 1, 3 );
    for( int i = 0; i < depth; ++i ) {
        int w = c.range( 0, 2 );
        if( w == 0 ) { int f = c.range( 0, 4 ); b = narrow( c, b, f != 1, f != 2 ); }
        else if( w == 1 || b.n != b.k ) b = reorder( c, b );
        else b = scale( c, b );
        evaluate( c, "composition", b );
    }
    c.label( "depth3", depth == 3 );
}

PBT( diagonal, 20000, 200000, "a diagonal mapping, its inverse and the inverse of its inverse applied to random vectors; non-trivial: n >= 2 and factors of different magnitude" )
{
    unsigned n = c.size( 0, 6, 25 ); Vec d( n ); for( auto& v : d ) v = c.nz( 8 )*( c.chance( 1, 4 ) ? 1e-6 : 1 ); Vec x = c.nums( n );
    c.log << "d" << str( d ) << " x" << str( x );
    DiagonalMapping<VD> dm( toV( d ) ); const VectorMapping<VD>& m = dm; const VectorBijectiveMapping<VD>& bi = dm;
    auto inv = dm.inv(); const VectorMapping<VD>& mi = inv; auto invinv = inv.inv(); const VectorMapping<VD>& mii = invinv; const VectorBijectiveMapping<VD>& binv = inv;
    EXPECT( m.inputSize() == n && m.outputSize() == n && mi.inputSize() == n && mi.outputSize() == n, "diagonal", "sizes" );
    V y = m.map( toV( x ) ), u = bi.unmap( toV( x ) ), yi = mi.map( toV( x ) ), ui = binv.unmap( toV( x ) ), yii = mii.map( toV( x ) );
    V into( c.range( 0, 3 ) ); dm.unmap( into, toV( x ) );
    for( unsigned i = 0; i < n; ++i ) {
        double e = x[i]*d[i], q = x[i]/d[i];
        EXPECT( close( y[i], e, std::fabs( e ), 1e-14 ) && close( ui[i], e, std::fabs( e ), 1e-14 ) && close( yii[i], e, std::fabs( e ), 1e-14 ), "diagonal", "x*d at " << i << ": " << y[i] << ", " << ui[i] << ", " << yii[i] << "; expected " << e );
        EXPECT( close( u[i], q, std::fabs( q ), 1e-14 ) && close( yi[i], q, std::fabs( q ), 1e-14 ) && close( into[i], q, std::fabs( q ), 1e-14 ), "diagonal", "x/d at " << i << ": " << u[i] << ", " << yi[i] << "; expected " << q );
        EXPECT( close( bi.unmap( y )[i], x[i], std::fabs( x[i] ), 1e-14 ), "diagonal", "unmap(map(x)) differs from x at " << i );
    }
    c.nontrivial( n >= 2 );
}

PBT( normalize, 20000, 200000, "a square polynomial mapping is normalized at a random point: the result is d_i f_i(d x), with d_i = |df_i/dx_i|^(-1/2), so that the derivative of the scaled mapping has a diagonal of "
     "magnitude 1 at the corresponding point; mappings with a zero diagonal derivative are rejected; non-trivial: normalization succeeded with n >= 2 and a diagonal that is not uniform" )
{
    unsigned n = c.size( 1, 5, 20 ); auto pm = std::make_shared<PolyMapping>(); pm->p = genPoly( c, n, n, 3*n );
    for( unsigned i = 0; i < n; ++i ) if( !c.chance( 1, 12 ) ) { Poly::Term t; t.i = i; t.j = i; t.k = -1; t.a = c.range( 1, 40 )*( c.flip() ? -1 : 1 ); pm->p.t.push_back( t ); }
    double unit = c.chance( 1, 3 ) ? std::ldexp( 1., 2*c.range( -40, 40 ) ) : 1; for( auto& t : pm->p.t ) t.a *= unit; c.log << pm->p.str(); MappingNormalizer<VD> mn; mn.setMapping( pm ); const M& m = mn; int rounds = c.range( 1, 3 ), good = 0; bool uniform = true;
    for( int r = 0; r < rounds; ++r ) {       // normalization at another point, or of the mapping in other units, replaces the one before
        if( r && c.flip() ) { double f = std::ldexp( 1., 2*c.range( -20, 20 ) ); unit *= f; for( auto& t : pm->p.t ) t.a *= f; c.log << "\nscaled by " << f; }
        Vec x0( n ); for( auto& v : x0 ) v = c.range( -3, 3 ); c.log << "\nat " << str( x0 );
        auto J = pm->p.jac( x0 ); bool zero = false, tiny = false; for( unsigned i = 0; i < n; ++i ) { bool any = false; for( auto& t : pm->p.t ) any = any || ( t.i == i && ( t.j == int( i ) || t.k == int( i ) ) ); if( !any ) zero = true; else if( std::fabs( J[i][i] ) < .5*unit ) tiny = true; }
        if( tiny ) { if( r ) break; c.discard(); }     // numerically zero derivative of a nonlinear mapping: nothing is promised
        if( zero ) { EXPECT_THROW( mn.normalize( toV( x0 ) ), "normalize-reject", "zero diagonal derivative" ); c.nontrivial(); return; }
        mn.normalize( toV( x0 ) );
        Vec d( n ), z( n ); for( unsigned i = 0; i < n; ++i ) { d[i] = 1/std::sqrt( std::fabs( J[i][i] ) ); z[i] = x0[i]/d[i]; }
        EXPECT( m.inputSize() == n && m.outputSize() == n, "normalize", "sizes" );
        Vec x = c.nums( n, 3 ), a = x; double ds = 0; for( auto& q : d ) ds = std::max( ds, q ); for( unsigned i = 0; i < n; ++i ) { x[i] /= ds; a[i] = x[i]*d[i]; }
        Vec y = pm->p( a ); V v = m.map( toV( x ) ); double scale = 0, am = 1 + norm( a ); for( auto& t : pm->p.t ) scale += std::fabs( t.a )*ds*am*am; scale += unit*ds;
        for( unsigned i = 0; i < n; ++i ) EXPECT( close( v[i], y[i]*d[i], scale, 1e-4 ), "normalize", "element " << i << " of the normalized mapping at " << str( x ) << " is " << v[i] << ", expected " << y[i]*d[i] );
        if( unit == 1 ) { auto Jn = computeJacobian( m, toV( z ) );
            for( unsigned i = 0; i < n; ++i ) EXPECT( close( std::fabs( Jn.get( i, i ) ), 1, 1, 2e-3 ), "normalize", "diagonal element " << i << " of the derivative after normalization is " << Jn.get( i, i ) ); }
        for( unsigned i = 1; i < n; ++i ) uniform = uniform && d[i] == d[0]; ++good;
    }
    c.nontrivial( n >= 2 && !uniform && good ); c.label( "anew", good > 1 );
}
