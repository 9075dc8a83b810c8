C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        cellsmooth1d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2001 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2727 $
c  Modified:    $Date: 2006-06-22 15:52:36 -0600 (Thu, 22 Jun 2006) $
c  Description: F77 routines that compute matrix entries for 1d cell centered diffusion solver.
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 1d arrays in FORTRAN routines.
c
c
c
      recursive subroutine celljacobi1d(
     &  lo0,hi0,
     &  stencilsize,
     &  offset,
     &  slo0, shi0,
     &  stencil,
     &  flo0, fhi0,
     &  f,
     &  ulo0, uhi0, 
     &  u)
c***********************************************************************
      implicit none
c
      integer lo0,hi0
      integer ulo0, uhi0
      integer flo0, fhi0
      integer slo0, shi0
      integer stencilsize
      integer offset(0:1-1,0:stencilsize-1)
      double precision stencil(0:stencilsize-1,slo0:shi0)
      double precision u(ulo0:uhi0)
      double precision f(flo0:fhi0)
      double precision r(lo0:hi0)
      integer i,s, io
      double precision w

      w=2.0d0/3.0d0

c we make the assumption that the diagonal entry for the stencil is
c always stored first in the stencil

      do i = lo0, hi0
         r(i) = f(i)
         do s=0,stencilsize-1
            io=offset(0,s)
            r(i) = r(i)-stencil(s,i)*u(i+io)
         end do
c     do the diagonal scaling here 
         r(i) = r(i)/stencil(0,i)
      end do

      do i = lo0, hi0
         u(i)=u(i)+w*r(i)
      end do

      return
      end

      recursive subroutine cellgs1d(
     &     lo0,hi0,
     &     stencilsize,
     &     offset,
     &     slo0, shi0,
     &     stencil,
     &     flo0, fhi0,
     &     f,
     &     ulo0, uhi0, 
     &     u)
c***********************************************************************
      implicit none
c
      integer lo0,hi0
      integer ulo0, uhi0
      integer flo0, fhi0
      integer stencilsize
      integer offset(0:1-1,0:stencilsize-1)
      integer slo0, shi0
      double precision stencil(0:stencilsize-1,slo0:shi0)
      double precision u(ulo0:uhi0)
      double precision f(flo0:fhi0)
      integer i,s, io
      double precision r

c we make the assumption that the diagonal entry for the stencil is
c always stored first in the stencil

      do i = lo0, hi0
         r = f(i)
         do s=1,stencilsize-1
            io=offset(0,s)
            r = r-stencil(s,i)*u(i+io)
         end do
         u(i)=r/stencil(0,i)
      end do

      return
      end

      recursive subroutine cellrbgs1d(
     &     lo0,hi0,
     &     color,
     &     stencilsize,
     &     offset,
     &     slo0, shi0,
     &     stencil,
     &     flo0, fhi0,
     &     f,
     &     ulo0, uhi0, 
     &     u)
c***********************************************************************
      implicit none
c
      integer color
      integer lo0,hi0
      integer ulo0, uhi0
      integer flo0, fhi0
      integer slo0, shi0
      integer stencilsize
      integer offset(0:1-1,0:stencilsize-1)
      double precision stencil(0:stencilsize-1,slo0:shi0)
      double precision u(ulo0:uhi0)
      double precision f(flo0:fhi0)
      integer i,s, io
      double precision r

c we make the assumption that the diagonal entry for the stencil is
c always stored first in the stencil

      do i = lo0+mod(color,2), hi0,2
         r = f(i)
         do s=1,stencilsize-1
            io=offset(0,s)
            r = r-stencil(s,i)*u(i+io)
         end do
         u(i)=r/stencil(0,i)
      end do         

      return
      end
