// Generated nonlinear systems and Newton solvers assembled from every combination of components
#pragma once
#include "alg_common.h"
#include "ode_num_int/alg/reg/AlgebraicSolverClassesRegistrator.h"
#include <iomanip>

typedef sparse::SparseMatrix<double> S;
typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<double> > F;
typedef sparse::SparseMatrixCommonTypes::Index I;

// f_i = sum_j a_ij x_j + w_i g_i(x_i) + v_i x_i x_p(i) - b_i
struct System
{
    unsigned n = 0; std::vector<Vec> A; std::vector<std::vector<bool>> pat; Vec w, v, b; std::vector<int> kind; std::vector<unsigned> p;
    static double g( int k, double x )
    {
        switch( k ) { case 0: return 0; case 1: return std::sin( x ); case 2: return x*x*x; case 3: return x*x; case 4: return std::sqrt( x ); case 5: return std::log( x ); case 6: return std::exp( x ); case 7: return std::atan( x ); default: return x*x + 1; }
    }
    static double dg( int k, double x )
    {
        switch( k ) { case 0: return 0; case 1: return std::cos( x ); case 2: return 3*x*x; case 3: return 2*x; case 4: return .5/std::sqrt( x ); case 5: return 1/x; case 6: return std::exp( x ); case 7: return 1/( 1+x*x ); default: return 2*x; }
    }
    Vec operator()( const Vec& x ) const
    {
        Vec f( n );
        for( unsigned i = 0; i < n; ++i ) { double s = -b[i] + w[i]*g( kind[i], x[i] ) + v[i]*x[i]*x[p[i]]; for( unsigned j = 0; j < n; ++j ) if( pat[i][j] ) s += A[i][j]*x[j]; f[i] = s; }
        return f;
    }
    std::vector<Vec> jac( const Vec& x ) const
    {
        std::vector<Vec> J( n, Vec( n, 0. ) );
        for( unsigned i = 0; i < n; ++i ) { for( unsigned j = 0; j < n; ++j ) if( pat[i][j] ) J[i][j] = A[i][j]; J[i][i] += w[i]*dg( kind[i], x[i] ) + v[i]*x[p[i]]; J[i][p[i]] += v[i]*x[i]; }
        return J;
    }
    std::string str() const
    {
        std::ostringstream s; s.precision( 17 ); s << "system n=" << n;
        for( unsigned i = 0; i < n; ++i ) { s << " f" << i << "="; for( unsigned j = 0; j < n; ++j ) if( pat[i][j] ) s << std::showpos << A[i][j] << std::noshowpos << "x" << j; if( w[i] ) s << "+" << w[i] << "*g" << kind[i] << "(x" << i << ")"; if( v[i] ) s << "+" << v[i] << "*x" << i << "*x" << p[i]; s << "-" << b[i] << ";"; }
        return s.str();
    }
};
class SystemMapping : public VectorMapping<VD>
{
public:
    System s; mutable int calls = 0;
    unsigned inputSize() const override { return s.n; }
    unsigned outputSize() const override { return s.n; }
    void map( V& dst, const V& x ) const override { ++calls; if( x.size() != s.n ) throw std::runtime_error( "mapping argument has wrong size" ); dst = toV( s( toVec( x ) ) ); }
};
inline System blankSystem( unsigned n )
{
    System s; s.n = n; s.A.assign( n, Vec( n, 0. ) ); s.pat.assign( n, std::vector<bool>( n, false ) ); s.w.assign( n, 0 ); s.v.assign( n, 0 ); s.b.assign( n, 0 ); s.kind.assign( n, 0 ); s.p.assign( n, 0 );
    for( unsigned i = 0; i < n; ++i ) { s.pat[i][i] = true; s.p[i] = i; }
    return s;
}
// Anything goes: no roots, singular derivatives, non-finite values
inline System genWild( pbt::Ctx& c )
{
    unsigned n = c.range( 1, 4 ); System s = blankSystem( n );
    for( unsigned i = 0; i < n; ++i ) {
        for( unsigned j = 0; j < n; ++j ) { if( i != j && c.chance( 1, 2 ) ) s.pat[i][j] = true; if( s.pat[i][j] ) s.A[i][j] = c.chance( 1, 4 ) ? 1 : c.num( 4 ); }
        if( c.flip() ) { s.w[i] = c.nz( 3 ); s.kind[i] = c.range( 1, 8 ); }
        if( c.chance( 1, 4 ) ) { s.v[i] = c.nz( 2 ); s.p[i] = c.range( 0, n-1 ); }
        s.b[i] = c.chance( 1, 4 ) ? c.num( 1 )*1e-7 : c.num( 6 );
    }
    return s;
}
// Contraction: diagonally dominant linear part, small smooth nonlinearity, a known root of magnitude about 1
struct Benign { System s; Vec root; double lipInv; };
inline void setRoot( System& s, const Vec& root ) { std::fill( s.b.begin(), s.b.end(), 0. ); s.b = s( root ); }
inline Benign genBenign( pbt::Ctx& c, unsigned nmax = 6, double eps = .1, const System *pattern = nullptr, bool fixedPattern = false )
{
    unsigned n = pattern ? pattern->n : c.size( 1, nmax, 4*nmax, 80 ); Benign r; System& s = r.s; s = pattern ? *pattern : blankSystem( n );
    bool vary = pattern && !fixedPattern;   // same pattern, a nearby problem
    for( unsigned i = 0; i < n; ++i ) {
        double sum = 0;
        for( unsigned j = 0; j < n; ++j ) if( j != i ) {
            if( !pattern ) { s.pat[i][j] = n > 8 ? c.chance( 3, n ) : c.chance( 1, 3 ); s.A[i][j] = s.pat[i][j] ? c.real( .1, 1 )*( c.flip() ? -1 : 1 ) : 0; }
            else if( vary && s.pat[i][j] ) s.A[i][j] *= c.real( .95, 1.05 );
            sum += std::fabs( s.A[i][j] );
        }
        if( !pattern ) { s.A[i][i] = ( 1 + 2*sum + c.real( 0, 2 ) )*( c.chance( 1, 4 ) ? -1 : 1 ); s.kind[i] = c.pick( std::vector<int>{ 0, 1, 7, 3 } ); s.w[i] = eps*c.real( .2, 1 ); }
        else if( vary ) s.A[i][i] *= c.real( 1, 1.1 );
    }
    r.root.resize( n ); for( auto& x : r.root ) x = c.real( .5, 2 )*( c.flip() ? -1 : 1 );
    setRoot( s, r.root );
    return r;
}

inline std::vector<std::string> ddirNames() { return { "simple", "const", "broyden", "fake-broyden", "lazy-fake-broyden", "hart" }; }
inline std::shared_ptr<NewtonDescentDirection<VD>> makeDdir( const std::string& s )
{
    if( s == "simple" ) return std::make_shared<SimpleNewtonDescentDirection<VD>>();
    if( s == "const" ) return std::make_shared<ConstJacobianNewtonDescentDirection<VD>>();
    if( s == "broyden" ) return std::make_shared<JacobianBroydenUpdateNewtonDescentDirection<VD>>();
    if( s == "fake-broyden" ) return std::make_shared<JacobianFakeBroydenUpdateNewtonDescentDirection<VD>>();
    if( s == "lazy-fake-broyden" ) return std::make_shared<JacobianLazyFakeBroydenUpdateNewtonDescentDirection<VD>>();
    return std::make_shared<JacobianHartUpdateNewtonDescentDirection<VD>>();
}
inline std::shared_ptr<JacobianProvider<VD>> makeJp( bool sparse )
{ if( sparse ) return std::make_shared<SparseJacobianProvider<VD>>(); return std::make_shared<DefaultJacobianProvider<VD>>(); }
