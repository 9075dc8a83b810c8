C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        solv_poissonresiduals2d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2000 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 1984 $
c  Modified:    $Date: 2005-11-02 09:54:59 -0700 (Wed, 02 Nov 2005) $
c  Description: F77 routines that compute matrix entries for 2d Poisson solver. 
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 2d arrays in FORTRAN routines.
c
c
c
      recursive subroutine nodediffusionflux2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  dx,
     &  b0,b1,
     &  gcw,
     &  u,
     &  flux0,flux1)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision dx(0:1)
      integer gcw
      double precision
     &  u(ifirst0-gcw:ilast0+gcw,
     &          ifirst1-gcw:ilast1+gcw)
      double precision
     &  b0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  b1(ifirst1:ilast1+1,
     &          ifirst0:ilast0),
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
      integer ie0,ie1
c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
         do ie0 = ifirst0, ilast0+1
            flux0(ie0,ic1) = b0(ie0,ic1)*(u(ie0,ic1)-u(ie0-1,ic1))/dx(0)
         enddo
      enddo

      do ic0 = ifirst0, ilast0
         do ie1 = ifirst1, ilast1+1
            flux1(ie1,ic0) = b1(ie1,ic0)*(u(ic0,ie1)-u(ic0,ie1-1))/dx(1)
         enddo
      enddo
      return
      end
c
      recursive subroutine nodepoissonflux2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  dx,
     &  gcw,
     &  u,
     &  flux0,flux1)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision dx(0:1)
      integer gcw
      double precision
     &  u(ifirst0-gcw:ilast0+gcw,
     &          ifirst1-gcw:ilast1+gcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      integer ic0,ic1
      integer ie0,ie1
c
c***********************************************************************
c
      do ie0 = ifirst0, ilast0+1
         do ic1 = ifirst1, ilast1
            flux0(ie0,ic1) = (u(ie0,ic1)-u(ie0-1,ic1))/dx(0)
         enddo
      enddo
      do ie1 = ifirst1, ilast1+1
         do ic0 = ifirst0, ilast0
            flux1(ie1,ic0) = (u(ic0,ie1)-u(ic0,ie1-1))/dx(1)
         enddo
      enddo
      return
      end
