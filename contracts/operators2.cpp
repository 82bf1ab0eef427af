// the kernels of 2 dimensions together
#define VF_DIM 2
#include "operators.hpp"
CONTRACT(matrix_free_v1) { matrix_free<v1>(); }
CONTRACT(matrix_free_v2) { matrix_free<v2>(); }
CONTRACT(matrix_free_poisson) { matrix_free<poisson>(); }
CONTRACT(residual_v1) { residual<v1>(); }
CONTRACT(residual_v2) { residual<v2>(); }
CONTRACT(residual_poisson) { residual<poisson>(); }
CONTRACT(assembled_v1) { assembled<v1>(); }
CONTRACT(assembled_v2) { assembled<v2>(); }
CONTRACT(assembled_poisson) { assembled<poisson>(); }
CONTRACT(agreement_v1) { agreement<v1>(); }
CONTRACT(agreement_v2) { agreement<v2>(); }
CONTRACT(agreement_poisson) { agreement<poisson>(); }
CONTRACT(boundary_v1_x0_dirichlet1) { boundary<v1, 0, 0, 0, 1>(); }
CONTRACT(boundary_v1_x0_dirichlet2) { boundary<v1, 0, 0, 0, 2>(); }
CONTRACT(boundary_v1_x0_neumann) { boundary<v1, 0, 0, 1, 1>(); }
CONTRACT(boundary_v1_x0_robin) { boundary<v1, 0, 0, 4, 1>(); }
CONTRACT(moved_x0) { moved<v1, 0, 0>(); }
CONTRACT(boundary_v1_x1_dirichlet1) { boundary<v1, 0, 1, 0, 1>(); }
CONTRACT(boundary_v1_x1_dirichlet2) { boundary<v1, 0, 1, 0, 2>(); }
CONTRACT(boundary_v1_x1_neumann) { boundary<v1, 0, 1, 1, 1>(); }
CONTRACT(boundary_v1_x1_robin) { boundary<v1, 0, 1, 4, 1>(); }
CONTRACT(moved_x1) { moved<v1, 0, 1>(); }
CONTRACT(boundary_v1_y0_dirichlet1) { boundary<v1, 1, 0, 0, 1>(); }
CONTRACT(boundary_v1_y0_dirichlet2) { boundary<v1, 1, 0, 0, 2>(); }
CONTRACT(boundary_v1_y0_neumann) { boundary<v1, 1, 0, 1, 1>(); }
CONTRACT(moved_y0) { moved<v1, 1, 0>(); }
CONTRACT(boundary_v1_y1_dirichlet1) { boundary<v1, 1, 1, 0, 1>(); }
CONTRACT(boundary_v1_y1_dirichlet2) { boundary<v1, 1, 1, 0, 2>(); }
CONTRACT(boundary_v1_y1_neumann) { boundary<v1, 1, 1, 1, 1>(); }
CONTRACT(moved_y1) { moved<v1, 1, 1>(); }
CONTRACT(boundary_v2_x0_dirichlet2) { boundary<v2, 0, 0, 0, 2>(); }
CONTRACT(boundary_v2_x1_dirichlet2) { boundary<v2, 0, 1, 0, 2>(); }
CONTRACT(boundary_v2_y0_dirichlet2) { boundary<v2, 1, 0, 0, 2>(); }
CONTRACT(boundary_v2_y1_dirichlet2) { boundary<v2, 1, 1, 0, 2>(); }
CONTRACT(boundary_poisson_x0_dirichlet1) { boundary<poisson, 0, 0, 0, 1>(); }
CONTRACT(boundary_poisson_x0_dirichlet2) { boundary<poisson, 0, 0, 0, 2>(); }
CONTRACT(boundary_poisson_x0_neumann) { boundary<poisson, 0, 0, 1, 1>(); }
CONTRACT(boundary_poisson_x0_robin) { boundary<poisson, 0, 0, 4, 1>(); }
CONTRACT(boundary_poisson_x1_dirichlet1) { boundary<poisson, 0, 1, 0, 1>(); }
CONTRACT(boundary_poisson_x1_dirichlet2) { boundary<poisson, 0, 1, 0, 2>(); }
CONTRACT(boundary_poisson_x1_neumann) { boundary<poisson, 0, 1, 1, 1>(); }
CONTRACT(boundary_poisson_x1_robin) { boundary<poisson, 0, 1, 4, 1>(); }
CONTRACT(boundary_poisson_y0_dirichlet1) { boundary<poisson, 1, 0, 0, 1>(); }
CONTRACT(boundary_poisson_y0_dirichlet2) { boundary<poisson, 1, 0, 0, 2>(); }
CONTRACT(boundary_poisson_y0_neumann) { boundary<poisson, 1, 0, 1, 1>(); }
CONTRACT(boundary_poisson_y1_dirichlet1) { boundary<poisson, 1, 1, 0, 1>(); }
CONTRACT(boundary_poisson_y1_dirichlet2) { boundary<poisson, 1, 1, 0, 2>(); }
CONTRACT(boundary_poisson_y1_neumann) { boundary<poisson, 1, 1, 1, 1>(); }
CONTRACT(coarse_fine_v1_x0_1) { coarse_fine<v1, 0, 0, 1>(); }
CONTRACT(coarse_fine_v1_x0_2) { coarse_fine<v1, 0, 0, 2>(); }
CONTRACT(coarse_fine_v1_x1_1) { coarse_fine<v1, 0, 1, 1>(); }
CONTRACT(coarse_fine_v1_x1_2) { coarse_fine<v1, 0, 1, 2>(); }
CONTRACT(coarse_fine_v1_y0_1) { coarse_fine<v1, 1, 0, 1>(); }
CONTRACT(coarse_fine_v1_y0_2) { coarse_fine<v1, 1, 0, 2>(); }
CONTRACT(coarse_fine_v1_y1_1) { coarse_fine<v1, 1, 1, 1>(); }
CONTRACT(coarse_fine_v1_y1_2) { coarse_fine<v1, 1, 1, 2>(); }
CONTRACT(coarse_fine_v2_x0_2) { coarse_fine<v2, 0, 0, 2>(); }
CONTRACT(coarse_fine_v2_x1_2) { coarse_fine<v2, 0, 1, 2>(); }
CONTRACT(coarse_fine_v2_y0_2) { coarse_fine<v2, 1, 0, 2>(); }
CONTRACT(coarse_fine_v2_y1_2) { coarse_fine<v2, 1, 1, 2>(); }
CONTRACT(coarse_fine_poisson_x0_1) { coarse_fine<poisson, 0, 0, 1>(); }
CONTRACT(coarse_fine_poisson_x0_2) { coarse_fine<poisson, 0, 0, 2>(); }
CONTRACT(coarse_fine_poisson_x1_1) { coarse_fine<poisson, 0, 1, 1>(); }
CONTRACT(coarse_fine_poisson_x1_2) { coarse_fine<poisson, 0, 1, 2>(); }
CONTRACT(coarse_fine_poisson_y0_1) { coarse_fine<poisson, 1, 0, 1>(); }
CONTRACT(coarse_fine_poisson_y0_2) { coarse_fine<poisson, 1, 0, 2>(); }
CONTRACT(coarse_fine_poisson_y1_1) { coarse_fine<poisson, 1, 1, 1>(); }
CONTRACT(coarse_fine_poisson_y1_2) { coarse_fine<poisson, 1, 1, 2>(); }
CONTRACT(ghost_v1_x0_dirichlet1) { ghost<v1, 0, 0, 0, 1>(); }
CONTRACT(ghost_v1_x0_dirichlet2) { ghost<v1, 0, 0, 0, 2>(); }
CONTRACT(ghost_v1_x0_neumann) { ghost<v1, 0, 0, 1, 1>(); }
CONTRACT(ghost_v1_x0_robin1) { ghost<v1, 0, 0, 4, 1>(); }
CONTRACT(ghost_v1_x0_robin2) { ghost<v1, 0, 0, 4, 2>(); }
CONTRACT(ghost_v1_x1_dirichlet1) { ghost<v1, 0, 1, 0, 1>(); }
CONTRACT(ghost_v1_x1_dirichlet2) { ghost<v1, 0, 1, 0, 2>(); }
CONTRACT(ghost_v1_x1_neumann) { ghost<v1, 0, 1, 1, 1>(); }
CONTRACT(ghost_v1_x1_robin1) { ghost<v1, 0, 1, 4, 1>(); }
CONTRACT(ghost_v1_x1_robin2) { ghost<v1, 0, 1, 4, 2>(); }
CONTRACT(ghost_v1_y0_dirichlet1) { ghost<v1, 1, 0, 0, 1>(); }
CONTRACT(ghost_v1_y0_dirichlet2) { ghost<v1, 1, 0, 0, 2>(); }
CONTRACT(ghost_v1_y0_neumann) { ghost<v1, 1, 0, 1, 1>(); }
CONTRACT(ghost_v1_y0_robin1) { ghost<v1, 1, 0, 4, 1>(); }
CONTRACT(ghost_v1_y0_robin2) { ghost<v1, 1, 0, 4, 2>(); }
CONTRACT(ghost_v1_y1_dirichlet1) { ghost<v1, 1, 1, 0, 1>(); }
CONTRACT(ghost_v1_y1_dirichlet2) { ghost<v1, 1, 1, 0, 2>(); }
CONTRACT(ghost_v1_y1_neumann) { ghost<v1, 1, 1, 1, 1>(); }
CONTRACT(ghost_v1_y1_robin1) { ghost<v1, 1, 1, 4, 1>(); }
CONTRACT(ghost_v1_y1_robin2) { ghost<v1, 1, 1, 4, 2>(); }
CONTRACT(ghost_poisson_x0_dirichlet1) { ghost<poisson, 0, 0, 0, 1>(); }
CONTRACT(ghost_poisson_x0_dirichlet2) { ghost<poisson, 0, 0, 0, 2>(); }
CONTRACT(ghost_poisson_x0_neumann) { ghost<poisson, 0, 0, 1, 1>(); }
CONTRACT(ghost_poisson_x0_robin1) { ghost<poisson, 0, 0, 4, 1>(); }
CONTRACT(ghost_poisson_x0_robin2) { ghost<poisson, 0, 0, 4, 2>(); }
CONTRACT(ghost_poisson_x1_dirichlet1) { ghost<poisson, 0, 1, 0, 1>(); }
CONTRACT(ghost_poisson_x1_dirichlet2) { ghost<poisson, 0, 1, 0, 2>(); }
CONTRACT(ghost_poisson_x1_neumann) { ghost<poisson, 0, 1, 1, 1>(); }
CONTRACT(ghost_poisson_x1_robin1) { ghost<poisson, 0, 1, 4, 1>(); }
CONTRACT(ghost_poisson_x1_robin2) { ghost<poisson, 0, 1, 4, 2>(); }
CONTRACT(ghost_poisson_y0_dirichlet1) { ghost<poisson, 1, 0, 0, 1>(); }
CONTRACT(ghost_poisson_y0_dirichlet2) { ghost<poisson, 1, 0, 0, 2>(); }
CONTRACT(ghost_poisson_y0_neumann) { ghost<poisson, 1, 0, 1, 1>(); }
CONTRACT(ghost_poisson_y1_dirichlet1) { ghost<poisson, 1, 1, 0, 1>(); }
CONTRACT(ghost_poisson_y1_dirichlet2) { ghost<poisson, 1, 1, 0, 2>(); }
CONTRACT(ghost_poisson_y1_neumann) { ghost<poisson, 1, 1, 1, 1>(); }
CONTRACT(homogeneous_x0_1) { homogeneous<0, 0, 1>(); }
CONTRACT(homogeneous_x0_2) { homogeneous<0, 0, 2>(); }
CONTRACT(homogeneous_x0_3) { homogeneous<0, 0, 3>(); }
CONTRACT(homogeneous_x0_4) { homogeneous<0, 0, 4>(); }
CONTRACT(homogeneous_x1_1) { homogeneous<0, 1, 1>(); }
CONTRACT(homogeneous_x1_2) { homogeneous<0, 1, 2>(); }
CONTRACT(homogeneous_x1_3) { homogeneous<0, 1, 3>(); }
CONTRACT(homogeneous_x1_4) { homogeneous<0, 1, 4>(); }
CONTRACT(homogeneous_y0_1) { homogeneous<1, 0, 1>(); }
CONTRACT(homogeneous_y0_2) { homogeneous<1, 0, 2>(); }
CONTRACT(homogeneous_y0_3) { homogeneous<1, 0, 3>(); }
CONTRACT(homogeneous_y0_4) { homogeneous<1, 0, 4>(); }
CONTRACT(homogeneous_y1_1) { homogeneous<1, 1, 1>(); }
CONTRACT(homogeneous_y1_2) { homogeneous<1, 1, 2>(); }
CONTRACT(homogeneous_y1_3) { homogeneous<1, 1, 3>(); }
CONTRACT(homogeneous_y1_4) { homogeneous<1, 1, 4>(); }
