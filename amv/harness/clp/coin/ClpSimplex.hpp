/* stands in for Clp's header: the assumed contract of the calls amino makes */
#ifndef AMV_CLP_HPP
#define AMV_CLP_HPP
#include <cfloat>
#include <cmath>
#include "../../lp.h"

class CoinError {
public:
    void print() const {}
};

class ClpSimplex {
    struct amv_lp p;
    static double low( double v ) { return v < -1e27 ? -INFINITY : v; }
    static double up( double v ) { return v > 1e27 ? INFINITY : v; }
public:
    ClpSimplex() { amv_lp_new( &p, 0, 0 ); }
    ~ClpSimplex() { amv_lp_live --; }
    void setLogLevel( int ) {}
    void resize( int m, int n )
    {
        if( p.m > m || p.n > n ) p.bad ++;
        amv_lp_rows( &p, m - p.m, -INFINITY, INFINITY );
        amv_lp_cols( &p, n - p.n, 0, INFINITY );
    }
    void addColumn( int k, const int *rows, const double *v, double lo = 0, double hi = DBL_MAX, double obj = 0 )
    {
        amv_lp_cols( &p, 1, low(lo), up(hi) );
        for( int q = 0; q < k; q ++ )
            if( amv_lp_ok(&p, rows[q], p.n-1) ) p.a[rows[q]][p.n-1] = v[q];
        p.obj[p.n-1] = obj;
    }
    void addRow( int k, const int *cols, const double *v, double lo = -DBL_MAX, double hi = DBL_MAX )
    {
        amv_lp_rows( &p, 1, low(lo), up(hi) );
        for( int q = 0; q < k; q ++ )
            if( amv_lp_ok(&p, p.m-1, cols[q]) ) p.a[p.m-1][cols[q]] = v[q];
    }
    void modifyCoefficient( int i, int j, double v, bool = false ) { if( amv_lp_ok(&p, i, j) ) p.a[i][j] = v; }
    void setObjectiveCoefficient( int j, double v ) { if( j >= 0 && j < p.n ) p.obj[j] = v; else p.bad ++; }
    void setObjCoeff( int j, double v ) { setObjectiveCoefficient( j, v ); }
    void setColumnBounds( int j, double lo, double hi )
    {
        if( j >= 0 && j < p.n ) { p.lo[j] = low(lo); p.hi[j] = up(hi); } else p.bad ++;
    }
    void setColBounds( int j, double lo, double hi ) { setColumnBounds( j, lo, hi ); }
    void setRowBounds( int i, double lo, double hi )
    {
        if( i >= 0 && i < p.m ) { p.rlo[i] = low(lo); p.rhi[i] = up(hi); } else p.bad ++;
    }
    void chgColumnLower( const double *v ) { for( int j = 0; j < p.n; j ++ ) p.lo[j] = low(v[j]); }
    void chgColumnUpper( const double *v ) { for( int j = 0; j < p.n; j ++ ) p.hi[j] = up(v[j]); }
    void chgObjCoefficients( const double *v ) { for( int j = 0; j < p.n; j ++ ) p.obj[j] = v[j]; }
    void setOptimizationDirection( double d ) { p.max = d < 0; }
    int getNumCols() const { return p.n; }
    int getNumRows() const { return p.m; }
    int initialSolve() { amv_lp_ask( &p ); return amv_lp_status; }
    const double *getColSolution() const { return amv_lp_x; }
};
#endif
