C Copyright 2006, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        solv_poissonresiduals3d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2000 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2887 $
c  Modified:    $Date: 2006-09-22 09:35:39 -0600 (Fri, 22 Sep 2006) $
c  Description: F77 routines that compute matrix entries for 3d Poisson solver. 
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 3d arrays in FORTRAN routines.
c
c
c
      recursive subroutine nodediffusionv1apply3d(
     &  ifirst0,ilast0,ifirst1,ilast1,ifirst2,ilast2,
     &  alpha,beta,
     &  dx,
     &  agcw,
     &  acoef,
     &  ugcw,
     &  u,
     &  fgcw,
     &  f,
     &  flux0,flux1,flux2,
     &  a,
     &  b,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      double precision alpha,beta
      integer agcw, ugcw,fgcw,rgcw
      double precision dx(0:3-1)
      double precision
     &  acoef(ifirst0-agcw:ilast0+agcw,
     &          ifirst1-agcw:ilast1+agcw,
     &          ifirst2-agcw:ilast2+agcw),
     &  u(ifirst0-ugcw:ilast0+ugcw,
     &          ifirst1-ugcw:ilast1+ugcw,
     &          ifirst2-ugcw:ilast2+ugcw),
     &  f(ifirst0-fgcw:ilast0+fgcw,
     &          ifirst1-fgcw:ilast1+fgcw,
     &          ifirst2-fgcw:ilast2+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw,
     &          ifirst2-rgcw:ilast2+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst2:ilast2,
     &          ifirst0:ilast0),
     &  flux2(ifirst2:ilast2+1,
     &          ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer i,j,k
      double precision a
      double precision b
      double precision diver,lu
c
c***********************************************************************
c
      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
     &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
               lu = - diver +alpha*acoef(i,j,k)*u(i,j,k)
               res(i,j,k) = b*f(i,j,k) +a*lu 
            enddo
         enddo
      enddo
      return
      end
c
      recursive subroutine nodediffusionv2apply3d(
     &  ifirst0,ilast0,
     &  ifirst1,ilast1,
     &  ifirst2,ilast2,
     &  alpha,beta,
     &  dx,
     &  ugcw,
     &  u,
     &  fgcw,
     &  f,
     &  flux0,flux1,flux2,
     &  a,
     &  b,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      double precision alpha,beta
      integer ugcw,fgcw,rgcw
      double precision dx(0:3-1)
      double precision
     &  u(ifirst0-ugcw:ilast0+ugcw,
     &          ifirst1-ugcw:ilast1+ugcw,
     &          ifirst2-ugcw:ilast2+ugcw),
     &  f(ifirst0-fgcw:ilast0+fgcw,
     &          ifirst1-fgcw:ilast1+fgcw,
     &          ifirst2-fgcw:ilast2+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw,
     &          ifirst2-rgcw:ilast2+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst2:ilast2,
     &          ifirst0:ilast0),
     &  flux2(ifirst2:ilast2+1,
     &          ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer i,j,k
      double precision a
      double precision b
      double precision diver,lu
c
c***********************************************************************
c
      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
     &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
               lu = - diver +alpha*u(i,j,k)
               res(i,j,k) = b*f(i,j,k) +a*lu 
            enddo
         enddo
      enddo

      return
      end
c
      recursive subroutine nodepoissonapply3d(
     &  ifirst0,ilast0,
     &  ifirst1,ilast1,
     &  ifirst2,ilast2,
     &  beta,
     &  dx,
     &  fgcw,
     &  f,
     &  flux0,flux1,flux2,
     &  a,  
     &  b,
     &  rgcw,
     &  res)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      double precision beta
      double precision dx(0:3-1)
      integer fgcw, rgcw
      double precision
     &  f(ifirst0-fgcw:ilast0+fgcw,
     &          ifirst1-fgcw:ilast1+fgcw,
     &          ifirst2-fgcw:ilast2+fgcw),
     &  res(ifirst0-rgcw:ilast0+rgcw,
     &          ifirst1-rgcw:ilast1+rgcw,
     &          ifirst2-rgcw:ilast2+rgcw)
      double precision
     &  flux0(ifirst0:ilast0+1,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2),
     &  flux1(ifirst1:ilast1+1,
     &          ifirst2:ilast2,
     &          ifirst0:ilast0),
     &  flux2(ifirst2:ilast2+1,
     &          ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer i,j,k
      double precision a
      double precision b
      double precision lu
c
c***********************************************************************
c
      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               lu = -beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
     &                     (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
     &                     (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
               res(i,j,k) = b*f(i,j,k) + a*lu 
            enddo
         enddo
      enddo

      return
      end
