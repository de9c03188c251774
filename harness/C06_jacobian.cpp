// C06 - finite-difference Jacobians, grouped-column evaluation, trimming, and provider histories
#include "alg_common.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
#include <iomanip>

typedef sparse::SparseMatrix<double> S;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<double> > F;
typedef sparse::SparseMatrixCommonTypes::Index I;
typedef std::map<I,double> D;

template< class Mx > static D elems( const Mx& m ) { D d; for( const auto& e : m ) d[e.first] = e.second; return d; }
static std::string dstr( const D& d ) { std::ostringstream s; s.precision( 12 ); for( auto& e : d ) s << " (" << e.first.first << "," << e.first.second << ")=" << e.second; return s.str(); }
static double scaleOf( const Poly& p ) { double s = 1; for( auto& t : p.t ) s += std::fabs( t.a )*36; return s; }

// with every dependence visible (derivative away from 0) at x0?
static bool visible( const Poly& p, const Vec& x0 ) { auto J = p.jac( x0 ); for( auto& e : p.pattern() ) if( std::fabs( J[e.first][e.second] ) < 1e-2 ) return false; return true; }
static void checkJ( pbt::Ctx& c, const char *key, const D& got, const Poly& p, const Vec& x0, std::function<bool(I)> kept, const char *what )
{
    auto J = p.jac( x0 ); auto pat = p.pattern(); double sc = scaleOf( p );
    for( auto& e : got ) {
        EXPECT( e.first.first < p.m && e.first.second < p.n, key, what << ": element (" << e.first.first << "," << e.first.second << ") out of range" );
        EXPECT( e.second == 0 || pat.count( { e.first.first, e.first.second } ), key, what << ": element (" << e.first.first << "," << e.first.second << ") is " << e.second << " though the mapping does not depend on it, at " << str( x0 ) );
        EXPECT( kept( e.first ), key, what << ": element (" << e.first.first << "," << e.first.second << ") should have been trimmed" );
    }
    for( unsigned i = 0; i < p.m; ++i ) for( unsigned j = 0; j < p.n; ++j ) {
        if( !kept( I( i, j ) ) ) continue;
        auto it = got.find( I( i, j ) ); double g = it == got.end() ? 0 : it->second;
        EXPECT( close( g, J[i][j], sc, 1e-5 ), key, what << ": element (" << i << "," << j << ") is " << g << ", derivative is " << J[i][j] << " at " << str( x0 ) << "; all:" << dstr( got ) );
    }
}
static std::shared_ptr<PolyMapping> gen( pbt::Ctx& c, unsigned n, unsigned m, bool diag )
{
    auto pm = std::make_shared<PolyMapping>(); pm->p = genPoly( c, n, m, 4*m );
    if( c.flip() ) for( unsigned i = 0; i < std::min( n, m ); ++i ) for( int k = -1; k <= 1; ++k ) { int j = int( i ) + k; if( j >= 0 && j < int( n ) && ( diag || k || c.flip() ) ) pm->p.t.push_back( { i, double( c.range( 1, 9 ) ), j, -1 } ); }
    return pm;
}

PBT( dense_sparse, 60000, 600000, "Jacobian of a random sparse polynomial mapping at a random point: dense evaluation, and grouped-column evaluation over the exact pattern or a superset of it, also for non-square mappings and at several points "
     "with one calculator; oracle: the analytic derivative, and bitwise agreement of the two; number of mapping evaluations as announced; non-trivial: at least one group of two columns" )
{
    unsigned n = c.size( 0, 8, 40 ), m = c.chance( 3, 4 ) ? n : c.size( 0, 8, 40 ); auto pm = gen( c, n, m, false ); auto& p = pm->p;
    Vec x0( n ); for( auto& v : x0 ) v = c.real( -4, 4 ); V xv = toV( x0 ); c.log << p.str() << " at " << str( x0 );
    D dense; auto all = []( I ) { return true; };
    if( n == m ) {
        pm->calls = 0; S J = computeJacobian( *pm, xv ); EXPECT( J.size() == I( n, n ), "dense", "size" ); EXPECT( same( xv, x0 ), "dense", "the point was changed" );
        dense = elems( J ); checkJ( c, "dense", dense, p, x0, all, "dense" );
        EXPECT( pm->calls <= int( n ) + 1, "dense", pm->calls << " evaluations for " << n << " columns" );
    }
    S pat( m, n ); for( auto& e : p.pattern() ) pat.at( I( e.first, e.second ) ) = 1;
    bool super = c.chance( 1, 3 ); if( super && n && m ) { int k = c.range( 1, 4 ); for( int i = 0; i < k; ++i ) pat.at( I( c.range( 0, m-1 ), c.range( 0, n-1 ) ) ) = 1; }
    F Js; Js = pat; double delta = c.flip() ? 1e-6 : c.pick( std::vector<double>{ 1e-5, 1e-7, -1e-6, 3e-6 } );
    if( c.chance( 1, 4 ) && !Js.empty() ) { computeSparseJacobian( Js, static_cast<const VectorMapping<VD>&>( *pm ), xv, 1e-6 ); delta = 1e-6; }
    else {
        SparseJacobianCalculator<VD> calc( &Js );
        unsigned req = calc.mappingEvaluationsRequired(); EXPECT( req <= n + 1, "sparse", req << " evaluations announced for " << n << " columns" );
        if( c.flip() ) { Vec x1( n ); for( auto& v : x1 ) v = c.range( -4, 4 ); calc.calculate( *pm, toV( x1 ), delta ); checkJ( c, "sparse", elems( Js ), p, x1, all, "sparse (first point)" ); }
        pm->calls = 0; calc.calculate( *pm, xv, delta ); EXPECT( pm->calls == int( req ), "sparse", pm->calls << " evaluations, " << req << " announced" );
        // columns that share no row are evaluated together: at least, two columns are not needed when none is shared
        bool disjoint = true; std::set<unsigned> rows; for( auto& e : Js ) disjoint = rows.insert( e.first.first ).second && disjoint;
        EXPECT( !disjoint || req <= 2, "sparse", "columns without common rows take " << req << " evaluations" );
        c.nontrivial( req < n + 1 ); c.label( "group", req < n + 1 && req > 2 );
    }
    EXPECT( same( xv, x0 ), "sparse", "the point was changed" );
    EXPECT( Js.size() == I( m, n ), "sparse", "size" ); D sp = elems( Js ); EXPECT( elems( pat ).size() == sp.size(), "sparse", "the pattern has changed" );
    checkJ( c, "sparse", sp, p, x0, all, "sparse" );
    if( n == m && delta == 1e-6 ) for( auto& e : sp ) { double d = dense.count( e.first ) ? dense[e.first] : 0; EXPECT( e.second == d, "sparse-dense", "element (" << e.first.first << "," << e.first.second << "): sparse " << e.second << ", dense " << d ); }
}

// ---------------------------------------------------------------------------------------
static bool keepWidth( unsigned w, I e ) { return w == 0 || std::abs( int( e.first ) - int( e.second ) ) < int( w ); }
PBT( trimmers, 8000, 100000, "one trimmer is applied to a sequence of random matrices, by width or by threshold with random parameters that change between (0: off), with elements placed next to the threshold and exactly on it; oracle: definition; non-trivial: something was removed and something off-diagonal was kept" )
{
    bool byWidth = c.flip(); std::shared_ptr<JacobianTrimmer<VD>> t; if( byWidth ) t = std::make_shared<JacobianWidthBasedTrimmer<VD>>(); else t = std::make_shared<JacobianThresholdBasedTrimmer<VD>>();
    unsigned w = 0; double th = 0; bool interesting = false; int rounds = c.range( 1, 3 );
    for( int round = 0; round < rounds; ++round ) {
        unsigned n = c.size( 0, 7, 40 ); S J( n, n ); int k = n ? c.range( 0, 3*n ) : 0; double unit = c.chance( 1, 4 ) ? c.pick( std::vector<double>{ 1e-8, 1e6, 1e-150, 1e150 } ) : 1;
        for( int i = 0; i < k; ++i ) J.at( I( c.range( 0, n-1 ), c.range( 0, n-1 ) ) ) = c.num( 8 )*( c.chance( 1, 3 ) ? .01 : 1 )*unit;
        bool set = round == 0 || c.flip(); OptionalParameters::Parameters par;
        if( byWidth ) { if( set ) { w = c.range( 0, 6 ); if( w || round || c.flip() ) { par["width"] = w; t->setParameters( par ); } } EXPECT( t->parameters()["width"].value<unsigned>() == w, "parameters", "width" ); }
        else {
            if( set ) { th = c.chance( 1, 5 ) ? 0 : c.pick( std::vector<double>{ 1, .5, .1, .01, 1e-6, 2, .25 } ); par["threshold"] = th; t->setParameters( par ); }
            EXPECT( t->parameters()["threshold"].value<double>() == th, "parameters", "threshold" );
            if( n && th <= 1 && c.flip() ) {
                // the largest element, of any sign, is known, and some are put beside the threshold
                double mx = 0; for( auto& e : elems( J ) ) mx = std::max( mx, std::fabs( e.second ) );
                mx = ( mx ? mx : unit )*2; if( c.flip() ) mx = -mx;
                J.at( I( c.range( 0, n-1 ), c.range( 0, n-1 ) ) ) = mx; int q = c.range( 1, 3 );
                for( int i = 0; i < q; ++i ) { I at( c.range( 0, n-1 ), c.range( 0, n-1 ) ); if( elems( J ).count( at ) && J.at( at ) == mx ) continue;
                    J.at( at ) = th*mx*( 1 + c.pick( std::vector<double>{ 0, 1e-4, -1e-4, 1e-9, -1e-9, .3, -.3 } ) )*( c.flip() ? 1 : -1 ); }
            }
        }
        D j = elems( J ), want; 
        if( byWidth ) { for( auto& e : j ) if( keepWidth( w, e.first ) ) want.insert( e ); c.log << "width " << w << dstr( j ) << "; "; }
        else {
            double mx = 0; for( auto& e : j ) mx = std::max( mx, std::fabs( e.second ) );
            // elements on the threshold itself are kept, and are judged only if the threshold comes out exactly
            bool exact = std::exp2( std::round( std::log2( th ) ) ) == th, edge = false;
            for( auto& e : j ) { if( th == 0 || mx == 0 || e.first.first == e.first.second || std::fabs( e.second ) >= th*mx ) want.insert( e ); edge = edge || ( !exact && close( std::fabs( e.second ), th*mx, mx, 1e-15 ) && e.second != 0 ); }
            c.log << "threshold " << th << dstr( j ) << "; "; if( edge ) c.discard();
        }
        S r = t->trimJacobian( J ); EXPECT( r.size() == I( n, n ), "trim", "size changed" ); D got = elems( r );
        EXPECT( got == want, "trim", "trimmed to" << dstr( got ) << ", expected" << dstr( want ) ); EXPECT( elems( J ) == j, "trim", "the original was changed" );
        bool off = false; for( auto& e : want ) off = off || e.first.first != e.first.second;
        interesting = interesting || ( want.size() < j.size() && off );
    }
    c.nontrivial( interesting );
}

// ---------------------------------------------------------------------------------------
PBT( provider_history, 25000, 250000, "a Jacobian provider (dense or sparse) is taken through a history of evaluations at several points, trimmer settings and removals, hard resets and changes of the mapping (followed by a hard reset); "
     "after every evaluation its Jacobian must be the derivative at the point asked, trimmed by the current trimmer; non-trivial: two evaluations, one of them after a trimmer change or mapping change" )
{
    bool sparse = c.flip(); std::shared_ptr<JacobianProvider<VD>> jp;
    if( sparse ) jp = std::make_shared<SparseJacobianProvider<VD>>(); else jp = std::make_shared<DefaultJacobianProvider<VD>>();
    auto mk = [&] { unsigned n = c.size( 1, 6, 30 ); auto pm = gen( c, n, n, true ); for( unsigned i = 0; i < n; ++i ) pm->p.t.push_back( { i, double( c.range( 10, 40 ) ), int( i ), -1 } ); return pm; };
    auto pm = mk(); unsigned w = 0; bool trim = false, fresh = true; int evals = 0, changes = 0, used = 0;
    std::shared_ptr<JacobianTrimmer<VD>> jt = std::make_shared<JacobianWidthBasedTrimmer<VD>>();
    auto setW = [&] { w = c.range( 0, 3 ); OptionalParameters::Parameters par; par["width"] = w; jt->setParameters( par ); };
    bool early = c.flip(); if( early ) { setW(); jp->setJacobianTrimmer( jt ); trim = true; c.log << "trim" << w << "; "; }
    jp->setMapping( pm ); c.log << ( sparse ? "sparse " : "default " ) << pm->p.str() << "; ";
    int steps = c.range( 2, 8 );
    for( int k = 0; k < steps; ++k ) {
        switch( c.pickw( { 6, 2, 2, 1, 1 } ) ) {
            case 0: {
                Vec x0( pm->p.n ); for( auto& v : x0 ) v = c.real( -4, 4 );
                if( sparse && !trim && fresh && !visible( pm->p, x0 ) ) { c.log << "(skipped) "; break; }
                V xv = toV( x0 ); jp->computeJacobian( xv ); c.log << "J at " << str( x0 ) << "; "; if( !trim ) fresh = false;
                const JacobianProvider<VD>& cj = *jp; EXPECT( same( xv, x0 ), "provider", "the point was changed" );
                EXPECT( cj.jacobian().size() == I( pm->p.n, pm->p.n ), "provider", "size of the Jacobian" );
                unsigned ww = trim ? w : 0; checkJ( c, "provider", elems( cj.jacobian() ), pm->p, x0, [ww]( I e ) { return keepWidth( ww, e ); }, "provider" );
                EXPECT( elems( cj.jacobian() ) == elems( jp->jacobian() ), "provider", "two accessors" );
                ++evals; if( changes ) ++used; break; }
            case 1: if( trim && c.flip() ) { jp->setJacobianTrimmer( nullptr ); trim = false; fresh = true; c.log << "untrim; "; } else { setW(); if( !trim ) jp->setJacobianTrimmer( jt ); trim = true; c.log << "trim" << w << "; "; } if( evals ) ++changes; break;
            case 2: jp->hardReset(); fresh = true; c.log << "reset; "; EXPECT( jp->jacobian().empty(), "reset", "Jacobian is kept over a hard reset" ); break;
            case 3: pm = mk(); jp->setMapping( pm ); jp->hardReset(); fresh = true; c.log << "mapping " << pm->p.str() << "; "; if( evals ) ++changes; break;
            default: break;
        }
        if( trim ) EXPECT( jt->mapping() == jp->mapping(), "trimmer-mapping", "the trimmer does not know the mapping of its provider" );
    }
    c.nontrivial( evals >= 2 && used ); c.label( "sparse", sparse );
}
