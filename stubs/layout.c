/* one variable of every structure code generation writes: the compiler's layout of them in an embedded configuration */
#include "types.h"
#include "algebra_impl.h"
#include "qdldl_interface.h"

OSQPSolver    layout_solver;
OSQPSettings  layout_settings;
OSQPSolution  layout_solution;
OSQPInfo      layout_info;
OSQPWorkspace layout_work;
OSQPData      layout_data;
OSQPScaling   layout_scaling;
OSQPVectorf   layout_vectorf;
OSQPVectori   layout_vectori;
OSQPMatrix    layout_matrix;
OSQPCscMatrix layout_csc;
qdldl_solver  layout_qdldl;
