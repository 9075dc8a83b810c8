C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        solv_poissonresiduals2d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2000 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2489 $
c  Modified:    $Date: 2006-04-26 16:38:28 -0600 (Wed, 26 Apr 2006) $
c  Description: F77 routines that compute matrix entries for 2d Poisson solver. 
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 2d arrays in FORTRAN routines.
c
c
c
      recursive subroutine celldiffusionv1res2d(
     &  ifirst0,ilast0,ifirst1,ilast1,
     &  alpha,beta,
     &  dx,
     &  agcw,
     &  acoef,
     &  ugcw,
     &  u,
     &  fgcw,
     &  f,
     &  flux0,flux1,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision alpha,beta
      integer agcw, ugcw,fgcw,rgcw
      double precision dx(0:1)
      double precision
     &  acoef(ifirst0-agcw:ilast0+agcw,
     &          ifirst1-agcw:ilast1+agcw),
     &  u(ifirst0-ugcw:ilast0+ugcw,
     &          ifirst1-ugcw:ilast1+ugcw),
     &  f(ifirst0-fgcw:ilast0+fgcw,
     &          ifirst1-fgcw:ilast1+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
      double precision diver,lu
c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            diver = beta*((flux0(ic0+1,ic1) - flux0(ic0,ic1))/dx(0) +
     &                    (flux1(ic1+1,ic0) - flux1(ic1,ic0))/dx(1))
            lu = - diver +alpha*acoef(ic0,ic1)*u(ic0,ic1)
            res(ic0,ic1) = f(ic0,ic1) - lu 
         enddo
      enddo
      return
      end
c
      recursive subroutine celldiffusionv2res2d(
     &  ifirst0,ilast0,ifirst1,ilast1,
     &  alpha,beta,
     &  dx,
     &  ugcw,
     &  u,
     &  fgcw,
     &  f,
     &  flux0,flux1,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision alpha,beta
      integer ugcw,fgcw,rgcw
      double precision dx(0:1)
      double precision
     &  u(ifirst0-ugcw:ilast0+ugcw,
     &          ifirst1-ugcw:ilast1+ugcw),
     &  f(ifirst0-fgcw:ilast0+fgcw,
     &          ifirst1-fgcw:ilast1+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
      double precision a
      double precision b
      double precision diver,lu
c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            diver = beta*((flux0(ic0+1,ic1) - flux0(ic0,ic1))/dx(0) +
     &                    (flux1(ic1+1,ic0) - flux1(ic1,ic0))/dx(1))
            lu = - diver +alpha*u(ic0,ic1)
            res(ic0,ic1) = f(ic0,ic1)-lu 
         enddo
      enddo
      return
      end
c
      recursive subroutine cellpoissonv1res2d(
     &  ifirst0,ilast0,ifirst1,ilast1,
     &  beta,
     &  dx,
     &  fgcw,
     &  f,
     &  flux0,flux1, 
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision beta
      double precision dx(0:1)
      integer fgcw, rgcw
      double precision
     &  f(ifirst0-fgcw:ilast0+fgcw,
     &          ifirst1-fgcw:ilast1+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
      double precision lu
c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            lu = -beta*((flux0(ic0+1,ic1) - flux0(ic0,ic1))/dx(0) +
     &                  (flux1(ic1+1,ic0) - flux1(ic1,ic0))/dx(1))
            res(ic0,ic1) = f(ic0,ic1) - lu 
         enddo
      enddo
      return
      end

      recursive subroutine celldiffusionv1apply2d(
     &  ifirst0,ilast0,ifirst1,ilast1,
     &  alpha,beta,
     &  dx,
     &  agcw,
     &  acoef,
     &  ugcw,
     &  u,
     &  flux0,flux1,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision alpha,beta
      integer agcw, ugcw,rgcw
      double precision dx(0:1)
      double precision
     &  acoef(ifirst0-agcw:ilast0+agcw,
     &          ifirst1-agcw:ilast1+agcw),
     &  u(ifirst0-ugcw:ilast0+ugcw,
     &          ifirst1-ugcw:ilast1+ugcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
      double precision diver,lu
c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            diver = beta*((flux0(ic0+1,ic1) - flux0(ic0,ic1))/dx(0) +
     &                    (flux1(ic1+1,ic0) - flux1(ic1,ic0))/dx(1))
            res(ic0,ic1) = - diver +alpha*acoef(ic0,ic1)*u(ic0,ic1)
         enddo
      enddo
      return
      end
c
      recursive subroutine celldiffusionv2apply2d(
     &  ifirst0,ilast0,ifirst1,ilast1,
     &  alpha,beta,
     &  dx,
     &  ugcw,
     &  u,
     &  flux0,flux1,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision alpha,beta
      integer ugcw,rgcw
      double precision dx(0:1)
      double precision
     &  u(ifirst0-ugcw:ilast0+ugcw,
     &          ifirst1-ugcw:ilast1+ugcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
      double precision diver,lu
c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            diver = beta*((flux0(ic0+1,ic1) - flux0(ic0,ic1))/dx(0) +
     &                    (flux1(ic1+1,ic0) - flux1(ic1,ic0))/dx(1))
            res(ic0,ic1) = - diver +alpha*u(ic0,ic1)
         enddo
      enddo
      return
      end
c
      recursive subroutine cellpoissonv2apply2d(
     &  ifirst0,ilast0,ifirst1,ilast1,
     &  beta,
     &  dx,
     &  flux0,flux1, 
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision beta
      double precision dx(0:1)
      integer rgcw
      double precision res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
        do ic0 = ifirst0, ilast0
         res(ic0,ic1)= -beta*((flux0(ic0+1,ic1) - flux0(ic0,ic1))/dx(0)+
     &                  (flux1(ic1+1,ic0) - flux1(ic1,ic0))/dx(1))
        enddo
      enddo
      return
      end
