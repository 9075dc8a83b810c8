KERNEL(17,cd_apply_1d_cuda,diffusion_v1_res)
KERNEL(18,cd_apply_1d_cuda,diffusion_v2_res)
KERNEL(19,cd_apply_1d_cuda,poisson_v1_res)
KERNEL(20,cd_apply_1d_cuda,diffusion_v1_apply)
KERNEL(21,cd_apply_1d_cuda,diffusion_v2_apply)
KERNEL(22,cd_apply_1d_cuda,poisson_v2_apply)
KERNEL(23,cd_apply_2d_cuda,diffusion_v1_res)
KERNEL(24,cd_apply_2d_cuda,diffusion_v2_res)
KERNEL(25,cd_apply_2d_cuda,poisson_v1_res)
KERNEL(26,cd_apply_2d_cuda,diffusion_v1_apply)
KERNEL(27,cd_apply_2d_cuda,diffusion_v2_apply)
KERNEL(28,cd_apply_2d_cuda,poisson_v2_apply)
KERNEL(29,cd_apply_3d_cuda,diffusion_v1_res)
KERNEL(30,cd_apply_3d_cuda,diffusion_v2_res)
KERNEL(31,cd_apply_3d_cuda,poisson_v1_res)
KERNEL(32,cd_apply_3d_cuda,diffusion_v1_apply)
KERNEL(33,cd_apply_3d_cuda,diffusion_v2_apply)
KERNEL(34,cd_apply_3d_cuda,poisson_v2_apply)
KERNEL(35,cdf_1d_cuda,flux)
KERNEL(36,cdf_1d_cuda,poisson_flux)
KERNEL(37,cdf_2d_cuda,flux)
KERNEL(38,cdf_2d_cuda,poisson_flux)
KERNEL(39,cdf_3d_cuda,flux)
KERNEL(40,cdf_3d_cuda,poisson_flux)
KERNEL(41,cd_stencil_1d_cuda,offdiag)
KERNEL(42,cd_stencil_1d_cuda,poisson_offdiag)
KERNEL(43,cd_stencil_1d_cuda,v1diag)
KERNEL(44,cd_stencil_1d_cuda,v2diag)
KERNEL(45,cd_stencil_1d_cuda,poisson_diag)
KERNEL(46,cd_stencil_1d_cuda,adj_diag)
KERNEL(47,cd_stencil_1d_cuda,adj_poisson_diag)
KERNEL(48,cd_stencil_1d_cuda,adj_cf_diag)
KERNEL(49,cd_stencil_1d_cuda,adj_poisson_cf_diag)
KERNEL(50,cd_stencil_1d_cuda,adj_offdiag)
KERNEL(51,cd_stencil_1d_cuda,adj_poisson_offdiag)
KERNEL(52,cd_stencil_1d_cuda,adj_cf_offdiag)
KERNEL(53,cd_stencil_1d_cuda,readj_offdiag)
KERNEL(54,cd_stencil_1d_cuda,adj_cf_bdryrhs)
KERNEL(55,cd_stencil_2d_cuda,offdiag)
KERNEL(56,cd_stencil_2d_cuda,poisson_offdiag)
KERNEL(57,cd_stencil_2d_cuda,v1diag)
KERNEL(58,cd_stencil_2d_cuda,v2diag)
KERNEL(59,cd_stencil_2d_cuda,poisson_diag)
KERNEL(60,cd_stencil_2d_cuda,adj_diag)
KERNEL(61,cd_stencil_2d_cuda,adj_poisson_diag)
KERNEL(62,cd_stencil_2d_cuda,adj_cf_diag)
KERNEL(63,cd_stencil_2d_cuda,adj_poisson_cf_diag)
KERNEL(64,cd_stencil_2d_cuda,adj_offdiag)
KERNEL(65,cd_stencil_2d_cuda,adj_poisson_offdiag)
KERNEL(66,cd_stencil_2d_cuda,adj_cf_offdiag)
KERNEL(67,cd_stencil_2d_cuda,readj_offdiag)
KERNEL(68,cd_stencil_2d_cuda,adj_cf_bdryrhs)
KERNEL(69,cd_stencil_3d_cuda,offdiag)
KERNEL(70,cd_stencil_3d_cuda,poisson_offdiag)
KERNEL(71,cd_stencil_3d_cuda,v1diag)
KERNEL(72,cd_stencil_3d_cuda,v2diag)
KERNEL(73,cd_stencil_3d_cuda,poisson_diag)
KERNEL(74,cd_stencil_3d_cuda,adj_diag)
KERNEL(75,cd_stencil_3d_cuda,adj_poisson_diag)
KERNEL(76,cd_stencil_3d_cuda,adj_cf_diag)
KERNEL(77,cd_stencil_3d_cuda,adj_poisson_cf_diag)
KERNEL(78,cd_stencil_3d_cuda,adj_offdiag)
KERNEL(79,cd_stencil_3d_cuda,adj_poisson_offdiag)
KERNEL(80,cd_stencil_3d_cuda,adj_cf_offdiag)
KERNEL(81,cd_stencil_3d_cuda,readj_offdiag)
KERNEL(82,cd_stencil_3d_cuda,adj_cf_bdryrhs)
KERNEL(83,cd_correct_bc_1d_cuda,set_bc)
KERNEL(84,cd_correct_bc_1d_cuda,set_poisson_bc)
KERNEL(85,cd_correct_bc_2d_cuda,set_bc)
KERNEL(86,cd_correct_bc_2d_cuda,set_poisson_bc)
KERNEL(87,cd_correct_bc_2d_cuda,set_corner_bc)
KERNEL(88,cd_correct_bc_2d_cuda,set_homogenous_bc)
KERNEL(89,cd_correct_bc_3d_cuda,set_bc)
KERNEL(90,cd_correct_bc_3d_cuda,set_poisson_bc)
KERNEL(104,coarse_to_fine,copy)
KERNEL(105,coarse_to_fine,copy_corner)
