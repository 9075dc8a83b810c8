C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        solv_poissonresiduals1d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2000 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2531 $
c  Modified:    $Date: 2006-05-11 15:38:55 -0600 (Thu, 11 May 2006) $
c  Description: F77 routines that compute residual like quantities
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 1d arrays in FORTRAN routines.
c
c
c
      recursive subroutine celldiffusionv1res1d(
     &  ifirst0,ilast0,
     &  alpha,beta,
     &  dx,
     &  agcw,
     &  acoef,
     &  ugcw,
     &  u,
     &  fgcw,
     &  f,
     &  flux0,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision alpha,beta
      integer agcw, ugcw,fgcw,rgcw
      double precision dx(0:1-1)
      double precision
     &  acoef(ifirst0-agcw:ilast0+agcw),
     &  u(ifirst0-ugcw:ilast0+ugcw),
     &  f(ifirst0-fgcw:ilast0+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw)
      double precision flux0(ifirst0:ilast0+1)
      integer ic0
      double precision diver,lu
c
c***********************************************************************
c
      do ic0 = ifirst0, ilast0
         diver = beta*((flux0(ic0+1) - flux0(ic0))/dx(0))
         lu = - diver +alpha*acoef(ic0)*u(ic0)
         res(ic0) = f(ic0) -lu 
      enddo

      return
      end
c
      recursive subroutine celldiffusionv2res1d(
     &  ifirst0,ilast0,
     &  alpha,beta,
     &  dx,
     &  ugcw,
     &  u,
     &  fgcw,
     &  f,
     &  flux0,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision alpha,beta
      integer ugcw,fgcw,rgcw
      double precision dx(0:1-1)
      double precision
     &  u(ifirst0-ugcw:ilast0+ugcw),
     &  f(ifirst0-fgcw:ilast0+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw)
      double precision flux0(ifirst0:ilast0+1)
      integer ic0
      double precision diver,lu
c
c***********************************************************************
c
      do ic0 = ifirst0, ilast0
         diver = beta*((flux0(ic0+1) - flux0(ic0))/dx(0))
         lu = - diver +alpha*u(ic0)
         res(ic0) = f(ic0)-lu 
      enddo

      return
      end
c
      recursive subroutine cellpoissonv1res1d(
     &  ifirst0,ilast0,
     &  beta,
     &  dx,
     &  fgcw,
     &  f,
     &  flux0,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision beta
      double precision dx(0:1-1)
      integer fgcw, rgcw
      double precision
     &  f(ifirst0-fgcw:ilast0+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw)
      double precision flux0(ifirst0:ilast0+1)
      integer ic0
      double precision lu
c
c***********************************************************************
c
      do ic0 = ifirst0, ilast0
         lu = -beta*((flux0(ic0+1) - flux0(ic0))/dx(0))
         res(ic0) = f(ic0)-lu 
      enddo

      return
      end

      recursive subroutine celldiffusionv1apply1d(
     &  ifirst0,ilast0,
     &  alpha,beta,
     &  dx,
     &  agcw,
     &  acoef,
     &  ugcw,
     &  u,
     &  flux0,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision alpha,beta
      integer agcw, ugcw,rgcw
      double precision dx(0:1-1)
      double precision
     &  acoef(ifirst0-agcw:ilast0+agcw),
     &  u(ifirst0-ugcw:ilast0+ugcw),
     &  res(ifirst0-rgcw:ilast0+rgcw)
      double precision flux0(ifirst0:ilast0+1)
      integer ic0
      double precision diver,lu
c
c***********************************************************************
c
      do ic0 = ifirst0, ilast0
         diver = beta*((flux0(ic0+1) - flux0(ic0))/dx(0))
         res(ic0) = - diver +alpha*acoef(ic0)*u(ic0)
      enddo

      return
      end
c
      recursive subroutine celldiffusionv2apply1d(
     &  ifirst0,ilast0,
     &  alpha,beta,
     &  dx,
     &  ugcw,
     &  u,
     &  flux0,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision alpha,beta
      integer ugcw,rgcw
      double precision dx(0:1-1)
      double precision
     &  u(ifirst0-ugcw:ilast0+ugcw),
     &  res(ifirst0-rgcw:ilast0+rgcw)
      double precision flux0(ifirst0:ilast0+1)
      integer ic0
      double precision diver,lu
c
c***********************************************************************
c
      do ic0 = ifirst0, ilast0
         diver = beta*((flux0(ic0+1) - flux0(ic0))/dx(0))
         res(ic0) = - diver +alpha*u(ic0)
      enddo

      return
      end
c
      recursive subroutine cellpoissonv2apply1d(
     &  ifirst0,ilast0,
     &  beta,
     &  dx,
     &  flux0,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision beta
      double precision dx(0:1-1)
      integer rgcw
      double precision res(ifirst0-rgcw:ilast0+rgcw)
      double precision flux0(ifirst0:ilast0+1)
      integer ic0
c
c***********************************************************************
c
      do ic0 = ifirst0, ilast0
         res(ic0) = -beta*((flux0(ic0+1) - flux0(ic0))/dx(0))
      enddo

      return
      end
