extern "C" __attribute__((weak)) void ref_applystencilatpoint1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_applystencilonpatch1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_applystencilatpoint2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_applystencilonpatch2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_applystencilatpoint3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_applystencilonpatch3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellcrsfinebdryrhs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celladjustsystemrhspatch1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellcrsfinebdryrhs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celladjustsystemrhspatch2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellcrsfinebdryrhs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellblock1x1jacobi1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellblock2x2jacobi1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellblock1x1jacobi2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellblock2x2jacobi2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_creatematrix_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellblockjacobi3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1res1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2res1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonv1res1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonv2apply1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1res2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2res2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonv1res2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonv2apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1res3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2res3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonv1res3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonv2apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionflux1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonflux1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonoffdiag1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1diag1d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2diag1d_(void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissondiag1d_(void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusiondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissoncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissonoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_readjcelldiffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfbdryrhs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1diag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2diag2d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissondiag2d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusiondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissoncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_readjcelldiffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfbdryrhs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv1diag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celldiffusionv2diag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellpoissondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusiondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissoncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcellpoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_readjcelldiffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjcelldiffusioncfbdryrhs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsetcorrectionbc1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsetpoissoncorrectionbc1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsetcorrectionbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsetpoissoncorrectionbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsetinteriorcornerbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsethomogenousbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsetcorrectionbc3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellsetpoissoncorrectionbc3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celljacobi1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellgs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellrbgs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celljacobi2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellrbgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cells5rbgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cells9rbgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_celljacobi3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellgs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cellrbgs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_cells7rbgs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_ccellblkjacobi3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_copycoarsetofine3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_copycoarsetofinecorner3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_linearextrap_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv1apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv2apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonapply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv1apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv2apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonapply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv1apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv2apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonapply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionflux1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonflux1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonoffdiag1d_(void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv1diag1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv2diag1d_(void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissondiag1d_(void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusiondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissoncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissonoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_readjnodediffusionoffdiag1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfbdryrhs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv1diag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv2diag2d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissondiag2d_(void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusiondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissoncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_readjnodediffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfbdryrhs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv1diag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodediffusionv2diag3d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_nodepoissondiag3d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusiondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissoncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodepoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_readjnodediffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ref_adjnodediffusioncfbdryrhs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
static void (*const REF_FUNCS[])()={
(void(*)())&ref_applystencilatpoint1d_,
(void(*)())&ref_applystencilonpatch1d_,
(void(*)())&ref_applystencilatpoint2d_,
(void(*)())&ref_applystencilonpatch2d_,
(void(*)())&ref_applystencilatpoint3d_,
(void(*)())&ref_applystencilonpatch3d_,
(void(*)())&ref_adjcellcrsfinebdryrhs1d_,
(void(*)())&ref_celladjustsystemrhspatch1d_,
(void(*)())&ref_adjcellcrsfinebdryrhs2d_,
(void(*)())&ref_celladjustsystemrhspatch2d_,
(void(*)())&ref_adjcellcrsfinebdryrhs3d_,
(void(*)())&ref_cellblock1x1jacobi1d_,
(void(*)())&ref_cellblock2x2jacobi1d_,
(void(*)())&ref_cellblock1x1jacobi2d_,
(void(*)())&ref_cellblock2x2jacobi2d_,
(void(*)())&ref_creatematrix_,
(void(*)())&ref_cellblockjacobi3d_,
(void(*)())&ref_celldiffusionv1res1d_,
(void(*)())&ref_celldiffusionv2res1d_,
(void(*)())&ref_cellpoissonv1res1d_,
(void(*)())&ref_celldiffusionv1apply1d_,
(void(*)())&ref_celldiffusionv2apply1d_,
(void(*)())&ref_cellpoissonv2apply1d_,
(void(*)())&ref_celldiffusionv1res2d_,
(void(*)())&ref_celldiffusionv2res2d_,
(void(*)())&ref_cellpoissonv1res2d_,
(void(*)())&ref_celldiffusionv1apply2d_,
(void(*)())&ref_celldiffusionv2apply2d_,
(void(*)())&ref_cellpoissonv2apply2d_,
(void(*)())&ref_celldiffusionv1res3d_,
(void(*)())&ref_celldiffusionv2res3d_,
(void(*)())&ref_cellpoissonv1res3d_,
(void(*)())&ref_celldiffusionv1apply3d_,
(void(*)())&ref_celldiffusionv2apply3d_,
(void(*)())&ref_cellpoissonv2apply3d_,
(void(*)())&ref_celldiffusionflux1d_,
(void(*)())&ref_cellpoissonflux1d_,
(void(*)())&ref_celldiffusionflux2d_,
(void(*)())&ref_cellpoissonflux2d_,
(void(*)())&ref_celldiffusionflux3d_,
(void(*)())&ref_cellpoissonflux3d_,
(void(*)())&ref_celldiffusionoffdiag1d_,
(void(*)())&ref_cellpoissonoffdiag1d_,
(void(*)())&ref_celldiffusionv1diag1d_,
(void(*)())&ref_celldiffusionv2diag1d_,
(void(*)())&ref_cellpoissondiag1d_,
(void(*)())&ref_adjcelldiffusiondiag1d_,
(void(*)())&ref_adjcellpoissondiag1d_,
(void(*)())&ref_adjcelldiffusioncfdiag1d_,
(void(*)())&ref_adjcellpoissoncfdiag1d_,
(void(*)())&ref_adjcelldiffusionoffdiag1d_,
(void(*)())&ref_adjcellpoissonoffdiag1d_,
(void(*)())&ref_adjcelldiffusioncfoffdiag1d_,
(void(*)())&ref_readjcelldiffusionoffdiag1d_,
(void(*)())&ref_adjcelldiffusioncfbdryrhs1d_,
(void(*)())&ref_celldiffusionoffdiag2d_,
(void(*)())&ref_cellpoissonoffdiag2d_,
(void(*)())&ref_celldiffusionv1diag2d_,
(void(*)())&ref_celldiffusionv2diag2d_,
(void(*)())&ref_cellpoissondiag2d_,
(void(*)())&ref_adjcelldiffusiondiag2d_,
(void(*)())&ref_adjcellpoissondiag2d_,
(void(*)())&ref_adjcelldiffusioncfdiag2d_,
(void(*)())&ref_adjcellpoissoncfdiag2d_,
(void(*)())&ref_adjcelldiffusionoffdiag2d_,
(void(*)())&ref_adjcellpoissonoffdiag2d_,
(void(*)())&ref_adjcelldiffusioncfoffdiag2d_,
(void(*)())&ref_readjcelldiffusionoffdiag2d_,
(void(*)())&ref_adjcelldiffusioncfbdryrhs2d_,
(void(*)())&ref_celldiffusionoffdiag3d_,
(void(*)())&ref_cellpoissonoffdiag3d_,
(void(*)())&ref_celldiffusionv1diag3d_,
(void(*)())&ref_celldiffusionv2diag3d_,
(void(*)())&ref_cellpoissondiag3d_,
(void(*)())&ref_adjcelldiffusiondiag3d_,
(void(*)())&ref_adjcellpoissondiag3d_,
(void(*)())&ref_adjcelldiffusioncfdiag3d_,
(void(*)())&ref_adjcellpoissoncfdiag3d_,
(void(*)())&ref_adjcelldiffusionoffdiag3d_,
(void(*)())&ref_adjcellpoissonoffdiag3d_,
(void(*)())&ref_adjcelldiffusioncfoffdiag3d_,
(void(*)())&ref_readjcelldiffusionoffdiag3d_,
(void(*)())&ref_adjcelldiffusioncfbdryrhs3d_,
(void(*)())&ref_cellsetcorrectionbc1d_,
(void(*)())&ref_cellsetpoissoncorrectionbc1d_,
(void(*)())&ref_cellsetcorrectionbc2d_,
(void(*)())&ref_cellsetpoissoncorrectionbc2d_,
(void(*)())&ref_cellsetinteriorcornerbc2d_,
(void(*)())&ref_cellsethomogenousbc2d_,
(void(*)())&ref_cellsetcorrectionbc3d_,
(void(*)())&ref_cellsetpoissoncorrectionbc3d_,
(void(*)())&ref_celljacobi1d_,
(void(*)())&ref_cellgs1d_,
(void(*)())&ref_cellrbgs1d_,
(void(*)())&ref_celljacobi2d_,
(void(*)())&ref_cellgs2d_,
(void(*)())&ref_cellrbgs2d_,
(void(*)())&ref_cells5rbgs2d_,
(void(*)())&ref_cells9rbgs2d_,
(void(*)())&ref_celljacobi3d_,
(void(*)())&ref_cellgs3d_,
(void(*)())&ref_cellrbgs3d_,
(void(*)())&ref_cells7rbgs3d_,
(void(*)())&ref_ccellblkjacobi3d_,
(void(*)())&ref_copycoarsetofine3d_,
(void(*)())&ref_copycoarsetofinecorner3d_,
(void(*)())&ref_linearextrap_,
(void(*)())&ref_nodediffusionv1apply1d_,
(void(*)())&ref_nodediffusionv2apply1d_,
(void(*)())&ref_nodepoissonapply1d_,
(void(*)())&ref_nodediffusionv1apply2d_,
(void(*)())&ref_nodediffusionv2apply2d_,
(void(*)())&ref_nodepoissonapply2d_,
(void(*)())&ref_nodediffusionv1apply3d_,
(void(*)())&ref_nodediffusionv2apply3d_,
(void(*)())&ref_nodepoissonapply3d_,
(void(*)())&ref_nodediffusionflux1d_,
(void(*)())&ref_nodepoissonflux1d_,
(void(*)())&ref_nodediffusionflux2d_,
(void(*)())&ref_nodepoissonflux2d_,
(void(*)())&ref_nodediffusionflux3d_,
(void(*)())&ref_nodepoissonflux3d_,
(void(*)())&ref_nodediffusionoffdiag1d_,
(void(*)())&ref_nodepoissonoffdiag1d_,
(void(*)())&ref_nodediffusionv1diag1d_,
(void(*)())&ref_nodediffusionv2diag1d_,
(void(*)())&ref_nodepoissondiag1d_,
(void(*)())&ref_adjnodediffusiondiag1d_,
(void(*)())&ref_adjnodepoissondiag1d_,
(void(*)())&ref_adjnodediffusioncfdiag1d_,
(void(*)())&ref_adjnodepoissoncfdiag1d_,
(void(*)())&ref_adjnodediffusionoffdiag1d_,
(void(*)())&ref_adjnodepoissonoffdiag1d_,
(void(*)())&ref_adjnodediffusioncfoffdiag1d_,
(void(*)())&ref_readjnodediffusionoffdiag1d_,
(void(*)())&ref_adjnodediffusioncfbdryrhs1d_,
(void(*)())&ref_nodediffusionoffdiag2d_,
(void(*)())&ref_nodepoissonoffdiag2d_,
(void(*)())&ref_nodediffusionv1diag2d_,
(void(*)())&ref_nodediffusionv2diag2d_,
(void(*)())&ref_nodepoissondiag2d_,
(void(*)())&ref_adjnodediffusiondiag2d_,
(void(*)())&ref_adjnodepoissondiag2d_,
(void(*)())&ref_adjnodediffusioncfdiag2d_,
(void(*)())&ref_adjnodepoissoncfdiag2d_,
(void(*)())&ref_adjnodediffusionoffdiag2d_,
(void(*)())&ref_adjnodepoissonoffdiag2d_,
(void(*)())&ref_adjnodediffusioncfoffdiag2d_,
(void(*)())&ref_readjnodediffusionoffdiag2d_,
(void(*)())&ref_adjnodediffusioncfbdryrhs2d_,
(void(*)())&ref_nodediffusionoffdiag3d_,
(void(*)())&ref_nodepoissonoffdiag3d_,
(void(*)())&ref_nodediffusionv1diag3d_,
(void(*)())&ref_nodediffusionv2diag3d_,
(void(*)())&ref_nodepoissondiag3d_,
(void(*)())&ref_adjnodediffusiondiag3d_,
(void(*)())&ref_adjnodepoissondiag3d_,
(void(*)())&ref_adjnodediffusioncfdiag3d_,
(void(*)())&ref_adjnodepoissoncfdiag3d_,
(void(*)())&ref_adjnodediffusionoffdiag3d_,
(void(*)())&ref_adjnodepoissonoffdiag3d_,
(void(*)())&ref_adjnodediffusioncfoffdiag3d_,
(void(*)())&ref_readjnodediffusionoffdiag3d_,
(void(*)())&ref_adjnodediffusioncfbdryrhs3d_};
