// First include of every harness.  Symbolic build: `double` becomes the
// symbolic scalar for everything included afterwards.  Native build
// (SYMX_NATIVE): the very same harness over the machine's double.
#pragma once
#include <bits/stdc++.h>
#define EIGEN_DONT_VECTORIZE
#define EIGEN_DONT_PARALLELIZE
#include <Eigen/Dense>
#include <Eigen/LU>
#include <Eigen/SVD>
#include <Eigen/StdVector>
#include <boost/math/constants/constants.hpp>
#define BOOST_CB_ENABLE_DEBUG 1 // its range checks become obligations like all others
#include <boost/circular_buffer.hpp>
#include <boost/concept_check.hpp>
#ifndef SYMX_NATIVE
#include "symx_eigen.h"
namespace boost { namespace math { namespace constants {
template <> inline symx::Sym pi<symx::Sym>() { return symx::piSym(); }
}}}
#else
#include "native.h"
#endif
// the library's build definitions, with explicit instantiation switched off
#define MPC_WALKGEN_API_H
#define MPC_WALKGEN_API
#define MPC_WALKGEN_MACRO_H
#ifdef SYMX_UNIT
#define MPC_WALKGEN_INSTANTIATE_CLASS_TEMPLATE(c) template class c<double>;
#else
#define MPC_WALKGEN_INSTANTIATE_CLASS_TEMPLATE(c) extern int symx_unused_decl
#endif
using symx::Sym; using symx::F;
using symx::input; using symx::choose; using symx::assume; using symx::check; using symx::caseSplit;
using symx::f_le; using symx::f_lt; using symx::f_ge; using symx::f_gt; using symx::f_eq; using symx::f_near; using symx::f_iff; using symx::f_implies;
#ifndef SYMX_NATIVE
#define double ::symx::Sym
#ifdef SYMX_CONSTEXPR_IS_CONST
#define constexpr const
#endif
#endif
