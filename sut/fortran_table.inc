extern "C" __attribute__((weak)) void applystencilatpoint1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void applystencilonpatch1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void applystencilatpoint2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void applystencilonpatch2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void applystencilatpoint3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void applystencilonpatch3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellcrsfinebdryrhs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celladjustsystemrhspatch1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellcrsfinebdryrhs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celladjustsystemrhspatch2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellcrsfinebdryrhs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellblock1x1jacobi1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellblock2x2jacobi1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellblock1x1jacobi2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellblock2x2jacobi2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void creatematrix_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellblockjacobi3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1res1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2res1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonv1res1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonv2apply1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1res2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2res2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonv1res2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonv2apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1res3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2res3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonv1res3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonv2apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionflux1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonflux1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonoffdiag1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1diag1d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2diag1d_(void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissondiag1d_(void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusiondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissoncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissonoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void readjcelldiffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfbdryrhs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1diag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2diag2d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissondiag2d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusiondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissoncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void readjcelldiffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfbdryrhs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv1diag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celldiffusionv2diag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellpoissondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusiondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissoncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcellpoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void readjcelldiffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjcelldiffusioncfbdryrhs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsetcorrectionbc1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsetpoissoncorrectionbc1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsetcorrectionbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsetpoissoncorrectionbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsetinteriorcornerbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsethomogenousbc2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsetcorrectionbc3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellsetpoissoncorrectionbc3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celljacobi1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellgs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellrbgs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celljacobi2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellrbgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cells5rbgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cells9rbgs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void celljacobi3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellgs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cellrbgs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void cells7rbgs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void ccellblkjacobi3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void copycoarsetofine3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void copycoarsetofinecorner3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void linearextrap_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv1apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv2apply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonapply1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv1apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv2apply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonapply2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv1apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv2apply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonapply3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionflux1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonflux1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonflux2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonflux3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonoffdiag1d_(void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv1diag1d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv2diag1d_(void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissondiag1d_(void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusiondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissondiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissoncfdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusionoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissonoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfoffdiag1d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void readjnodediffusionoffdiag1d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfbdryrhs1d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv1diag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv2diag2d_(void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissondiag2d_(void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusiondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissondiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissoncfdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissonoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void readjnodediffusionoffdiag2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfbdryrhs2d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv1diag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodediffusionv2diag3d_(void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void nodepoissondiag3d_(void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusiondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissondiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissoncfdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodepoissonoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void readjnodediffusionoffdiag3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
extern "C" __attribute__((weak)) void adjnodediffusioncfbdryrhs3d_(void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
static void (*const FORTRAN_FUNCS[])()={
(void(*)())&applystencilatpoint1d_,
(void(*)())&applystencilonpatch1d_,
(void(*)())&applystencilatpoint2d_,
(void(*)())&applystencilonpatch2d_,
(void(*)())&applystencilatpoint3d_,
(void(*)())&applystencilonpatch3d_,
(void(*)())&adjcellcrsfinebdryrhs1d_,
(void(*)())&celladjustsystemrhspatch1d_,
(void(*)())&adjcellcrsfinebdryrhs2d_,
(void(*)())&celladjustsystemrhspatch2d_,
(void(*)())&adjcellcrsfinebdryrhs3d_,
(void(*)())&cellblock1x1jacobi1d_,
(void(*)())&cellblock2x2jacobi1d_,
(void(*)())&cellblock1x1jacobi2d_,
(void(*)())&cellblock2x2jacobi2d_,
(void(*)())&creatematrix_,
(void(*)())&cellblockjacobi3d_,
(void(*)())&celldiffusionv1res1d_,
(void(*)())&celldiffusionv2res1d_,
(void(*)())&cellpoissonv1res1d_,
(void(*)())&celldiffusionv1apply1d_,
(void(*)())&celldiffusionv2apply1d_,
(void(*)())&cellpoissonv2apply1d_,
(void(*)())&celldiffusionv1res2d_,
(void(*)())&celldiffusionv2res2d_,
(void(*)())&cellpoissonv1res2d_,
(void(*)())&celldiffusionv1apply2d_,
(void(*)())&celldiffusionv2apply2d_,
(void(*)())&cellpoissonv2apply2d_,
(void(*)())&celldiffusionv1res3d_,
(void(*)())&celldiffusionv2res3d_,
(void(*)())&cellpoissonv1res3d_,
(void(*)())&celldiffusionv1apply3d_,
(void(*)())&celldiffusionv2apply3d_,
(void(*)())&cellpoissonv2apply3d_,
(void(*)())&celldiffusionflux1d_,
(void(*)())&cellpoissonflux1d_,
(void(*)())&celldiffusionflux2d_,
(void(*)())&cellpoissonflux2d_,
(void(*)())&celldiffusionflux3d_,
(void(*)())&cellpoissonflux3d_,
(void(*)())&celldiffusionoffdiag1d_,
(void(*)())&cellpoissonoffdiag1d_,
(void(*)())&celldiffusionv1diag1d_,
(void(*)())&celldiffusionv2diag1d_,
(void(*)())&cellpoissondiag1d_,
(void(*)())&adjcelldiffusiondiag1d_,
(void(*)())&adjcellpoissondiag1d_,
(void(*)())&adjcelldiffusioncfdiag1d_,
(void(*)())&adjcellpoissoncfdiag1d_,
(void(*)())&adjcelldiffusionoffdiag1d_,
(void(*)())&adjcellpoissonoffdiag1d_,
(void(*)())&adjcelldiffusioncfoffdiag1d_,
(void(*)())&readjcelldiffusionoffdiag1d_,
(void(*)())&adjcelldiffusioncfbdryrhs1d_,
(void(*)())&celldiffusionoffdiag2d_,
(void(*)())&cellpoissonoffdiag2d_,
(void(*)())&celldiffusionv1diag2d_,
(void(*)())&celldiffusionv2diag2d_,
(void(*)())&cellpoissondiag2d_,
(void(*)())&adjcelldiffusiondiag2d_,
(void(*)())&adjcellpoissondiag2d_,
(void(*)())&adjcelldiffusioncfdiag2d_,
(void(*)())&adjcellpoissoncfdiag2d_,
(void(*)())&adjcelldiffusionoffdiag2d_,
(void(*)())&adjcellpoissonoffdiag2d_,
(void(*)())&adjcelldiffusioncfoffdiag2d_,
(void(*)())&readjcelldiffusionoffdiag2d_,
(void(*)())&adjcelldiffusioncfbdryrhs2d_,
(void(*)())&celldiffusionoffdiag3d_,
(void(*)())&cellpoissonoffdiag3d_,
(void(*)())&celldiffusionv1diag3d_,
(void(*)())&celldiffusionv2diag3d_,
(void(*)())&cellpoissondiag3d_,
(void(*)())&adjcelldiffusiondiag3d_,
(void(*)())&adjcellpoissondiag3d_,
(void(*)())&adjcelldiffusioncfdiag3d_,
(void(*)())&adjcellpoissoncfdiag3d_,
(void(*)())&adjcelldiffusionoffdiag3d_,
(void(*)())&adjcellpoissonoffdiag3d_,
(void(*)())&adjcelldiffusioncfoffdiag3d_,
(void(*)())&readjcelldiffusionoffdiag3d_,
(void(*)())&adjcelldiffusioncfbdryrhs3d_,
(void(*)())&cellsetcorrectionbc1d_,
(void(*)())&cellsetpoissoncorrectionbc1d_,
(void(*)())&cellsetcorrectionbc2d_,
(void(*)())&cellsetpoissoncorrectionbc2d_,
(void(*)())&cellsetinteriorcornerbc2d_,
(void(*)())&cellsethomogenousbc2d_,
(void(*)())&cellsetcorrectionbc3d_,
(void(*)())&cellsetpoissoncorrectionbc3d_,
(void(*)())&celljacobi1d_,
(void(*)())&cellgs1d_,
(void(*)())&cellrbgs1d_,
(void(*)())&celljacobi2d_,
(void(*)())&cellgs2d_,
(void(*)())&cellrbgs2d_,
(void(*)())&cells5rbgs2d_,
(void(*)())&cells9rbgs2d_,
(void(*)())&celljacobi3d_,
(void(*)())&cellgs3d_,
(void(*)())&cellrbgs3d_,
(void(*)())&cells7rbgs3d_,
(void(*)())&ccellblkjacobi3d_,
(void(*)())&copycoarsetofine3d_,
(void(*)())&copycoarsetofinecorner3d_,
(void(*)())&linearextrap_,
(void(*)())&nodediffusionv1apply1d_,
(void(*)())&nodediffusionv2apply1d_,
(void(*)())&nodepoissonapply1d_,
(void(*)())&nodediffusionv1apply2d_,
(void(*)())&nodediffusionv2apply2d_,
(void(*)())&nodepoissonapply2d_,
(void(*)())&nodediffusionv1apply3d_,
(void(*)())&nodediffusionv2apply3d_,
(void(*)())&nodepoissonapply3d_,
(void(*)())&nodediffusionflux1d_,
(void(*)())&nodepoissonflux1d_,
(void(*)())&nodediffusionflux2d_,
(void(*)())&nodepoissonflux2d_,
(void(*)())&nodediffusionflux3d_,
(void(*)())&nodepoissonflux3d_,
(void(*)())&nodediffusionoffdiag1d_,
(void(*)())&nodepoissonoffdiag1d_,
(void(*)())&nodediffusionv1diag1d_,
(void(*)())&nodediffusionv2diag1d_,
(void(*)())&nodepoissondiag1d_,
(void(*)())&adjnodediffusiondiag1d_,
(void(*)())&adjnodepoissondiag1d_,
(void(*)())&adjnodediffusioncfdiag1d_,
(void(*)())&adjnodepoissoncfdiag1d_,
(void(*)())&adjnodediffusionoffdiag1d_,
(void(*)())&adjnodepoissonoffdiag1d_,
(void(*)())&adjnodediffusioncfoffdiag1d_,
(void(*)())&readjnodediffusionoffdiag1d_,
(void(*)())&adjnodediffusioncfbdryrhs1d_,
(void(*)())&nodediffusionoffdiag2d_,
(void(*)())&nodepoissonoffdiag2d_,
(void(*)())&nodediffusionv1diag2d_,
(void(*)())&nodediffusionv2diag2d_,
(void(*)())&nodepoissondiag2d_,
(void(*)())&adjnodediffusiondiag2d_,
(void(*)())&adjnodepoissondiag2d_,
(void(*)())&adjnodediffusioncfdiag2d_,
(void(*)())&adjnodepoissoncfdiag2d_,
(void(*)())&adjnodediffusionoffdiag2d_,
(void(*)())&adjnodepoissonoffdiag2d_,
(void(*)())&adjnodediffusioncfoffdiag2d_,
(void(*)())&readjnodediffusionoffdiag2d_,
(void(*)())&adjnodediffusioncfbdryrhs2d_,
(void(*)())&nodediffusionoffdiag3d_,
(void(*)())&nodepoissonoffdiag3d_,
(void(*)())&nodediffusionv1diag3d_,
(void(*)())&nodediffusionv2diag3d_,
(void(*)())&nodepoissondiag3d_,
(void(*)())&adjnodediffusiondiag3d_,
(void(*)())&adjnodepoissondiag3d_,
(void(*)())&adjnodediffusioncfdiag3d_,
(void(*)())&adjnodepoissoncfdiag3d_,
(void(*)())&adjnodediffusionoffdiag3d_,
(void(*)())&adjnodepoissonoffdiag3d_,
(void(*)())&adjnodediffusioncfoffdiag3d_,
(void(*)())&readjnodediffusionoffdiag3d_,
(void(*)())&adjnodediffusioncfbdryrhs3d_};
