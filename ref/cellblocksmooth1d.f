C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        celldiffusionstencilcoeffs1d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2001 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2533 $
c  Modified:    $Date: 2006-05-11 15:57:25 -0600 (Thu, 11 May 2006) $
c  Description: F77 routines that compute matrix entries for 1d cell centered diffusion solver.
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 1d arrays in FORTRAN routines.
c
c
c
      recursive subroutine cellblock1x1jacobi1d(
     &  lo0,hi0,
     &  stencil,
     &  fgcw,
     &  f,
     &  ugcw, 
     &  u)
c***********************************************************************
      implicit none
c
      integer lo0,hi0
      double precision stencil(lo0:hi0)
      integer fgcw
      integer ugcw
      double precision u(lo0-ugcw:hi0+ugcw)
      double precision f(lo0-fgcw:hi0+fgcw)
      integer i
      double precision w

      w=2.0d0/3.0d0

c we make the assumption that the diagonal entry for the stencil is
c always stored last in the stencil

      do i = lo0, hi0
         u(i)=u(i)+w*f(i)/stencil(i)
      end do         

      return
      end

      recursive subroutine cellblock2x2jacobi1d(
     &  lo0,hi0,
     &  a,
     &  fgcw,
     &  f0,f1,
     &  ugcw, 
     &  u0,u1)
c***********************************************************************
      implicit none
c
      integer lo0,hi0
      double precision a(0:3,lo0:hi0)
      integer fgcw
      integer ugcw
      double precision u0(lo0-ugcw:hi0+ugcw)
      double precision u1(lo0-ugcw:hi0+ugcw)
      double precision f0(lo0-fgcw:hi0+fgcw)
      double precision f1(lo0-fgcw:hi0+fgcw)
      integer i
      double precision det
      double precision w

      w=2.0d0/3.0d0

c we make the assumption that the diagonal entry for the stencil is
c always stored last in the stencil

      do i = lo0, hi0
         det=a(0,i)*a(3,i)-a(1,i)*a(2,i)
         u0(i)=u0(i)+w*(a(3,i)*f0(i)-a(1,i)*f1(i))/det
         u1(i)=u1(i)+w*(a(0,i)*f1(i)-a(2,i)*f0(i))/det
      end do

      return
      end
