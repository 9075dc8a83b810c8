C Copyright 2006, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        nodediffusionstencilcoeffs3d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2001 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2886 $
c  Modified:    $Date: 2006-09-21 17:31:31 -0600 (Thu, 21 Sep 2006) $
c  Description: F77 routines that compute matrix entries for 3d node centered diffusion solver.
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 3d arrays in FORTRAN routines.
c
c
c
      recursive subroutine nodediffusionoffdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  bilo0,bilo1,bilo2,
     &  bihi0,bihi1,bihi2,
     &  dx,
     &  beta,
     &  b0,b1,b2,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2,
     &  bilo0,bilo1,bilo2,bihi0,bihi1,bihi2
      double precision
     &  dx(0:3-1),beta,
     &  b0(bilo0:bihi0+1,
     &          bilo1:bihi1,
     &          bilo2:bihi2),
     &  b1(bilo1:bihi1+1,
     &          bilo2:bihi2,
     &          bilo0:bihi0),
     &  b2(bilo2:bihi2+1,
     &          bilo0:bihi0,
     &          bilo1:bihi1)

      double precision stencil(0:6, ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)

      integer i,j,k
      double precision d0, d1, d2
c
c***********************************************************************
c
c using face data for b0,b1,b2 will slow down the creation
c of the stencils significantly. we should move to using
c side data for b0,b1,b2
      
      d0 = -beta / (dx(0)*dx(0))
      d1 = -beta / (dx(1)*dx(1))
      d2 = -beta / (dx(2)*dx(2))
      
      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               stencil(1, i, j, k) = d0*b0(i  ,j, k) 
               stencil(2, i, j, k) = d0*b0(i+1,j, k) 
               stencil(3, i, j, k) = d1*b1(j  ,k, i) 
               stencil(4, i, j, k) = d1*b1(j+1,k, i) 
               stencil(5, i, j, k) = d2*b2(k  ,i, j) 
               stencil(6, i, j, k) = d2*b2(k+1,i, j) 
            enddo
         enddo
      enddo

      return
      end
c     
      recursive subroutine nodepoissonoffdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2
      double precision dx(0:3-1),beta

      double precision stencil(0:6, ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)

      integer i,j,k
      double precision d0, d1, d2
c
c***********************************************************************
c
      d0 = -beta / (dx(0)*dx(0))
      d1 = -beta / (dx(1)*dx(1))
      d2 = -beta / (dx(2)*dx(2))
      
      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               stencil(1, i, j, k) = d0
               stencil(2, i, j, k) = d0
               stencil(3, i, j, k) = d1
               stencil(4, i, j, k) = d1
               stencil(5, i, j, k) = d2
               stencil(6, i, j, k) = d2
            enddo
         enddo
      enddo

      return
      end
c
c
      recursive subroutine nodediffusionv1diag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  ailo0,ailo1,ailo2,
     &  aihi0,aihi1,aihi2,
     &  alpha,
     &  a,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      integer ailo0,ailo1,ailo2
      integer aihi0,aihi1,aihi2
      double precision alpha
      double precision a(ailo0:aihi0,
     &          ailo1:aihi1,
     &          ailo2:aihi2)
      double precision stencil(0:6, ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k
c
c***********************************************************************
c

      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               stencil(0, i,j,k) = -(stencil(1, i,j,k) 
     &                              + stencil(2, i,j,k) 
     &                              + stencil(3, i,j,k) 
     &                              + stencil(4, i,j,k)
     &                              + stencil(5, i,j,k) 
     &                              + stencil(6, i,j,k) )
     &                              + alpha * a(i,j,k)
            enddo
         enddo
      enddo

      return
      end
c
c     
      recursive subroutine nodediffusionv2diag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  alpha,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2
      double precision alpha
      double precision stencil(0:6, ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k

c
c***********************************************************************
c
      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               stencil(0, i,j,k) = -(stencil(1, i,j,k) 
     &                              + stencil(2, i,j,k) 
     &                              + stencil(3, i,j,k) 
     &                              + stencil(4, i,j,k)
     &                              + stencil(5, i,j,k) 
     &                              + stencil(6, i,j,k) )
     &                              + alpha
            enddo
         enddo
      enddo
c
      return
      end
c
c     
      recursive subroutine nodepoissondiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k

c     
c***********************************************************************
c

      do k = ifirst2, ilast2
         do j = ifirst1, ilast1
            do i = ifirst0, ilast0
               stencil(0, i,j,k) = -(stencil(1, i,j,k) 
     &                              + stencil(2, i,j,k) 
     &                              + stencil(3, i,j,k) 
     &                              + stencil(4, i,j,k)
     &                              + stencil(5, i,j,k) 
     &                              + stencil(6, i,j,k) )
            enddo
         enddo
      enddo
c
      return
      end
c
c
      recursive subroutine adjnodediffusiondiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  beta,
     &  b0, b1, b2,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      integer pfirst0,pfirst1,pfirst2
      integer plast0,plast1,plast2
      integer direction, side, bdrytype
      integer extrapOrder
      double precision dx(0:3-1), beta
      double precision
     &  b0(ifirst0:ilast0+1,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2),
     &  b1(ifirst1:ilast1+1,
     &          ifirst2:ilast2,
     &          ifirst0:ilast0),
     &  b2(ifirst2:ilast2+1,
     &          ifirst0:ilast0,
     &          ifirst1:ilast1)
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k
      integer ie0,ie1,ie2
      integer edge
      
      double precision factor
      double precision b, h
c
c***********************************************************************
c
      h=dx(direction)
      if (bdrytype.eq.4) then
        b=0.25
        if (direction.eq.0) then
          ie0 = pfirst0-2*side+1
          edge= pfirst0-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                enddo
              enddo
            else if (extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  factor=beta*b0(edge,j, k)
                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
                enddo
              enddo
            endif
          else
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                enddo
              enddo
            else if (extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  factor=beta*b0(edge,j,k)
                  factor=factor/h*(3.0*h+16.0*b0(edge,j,k))
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
                enddo
              enddo
            endif         
          endif
        elseif (direction.eq.1) then
          ie1 = pfirst1-2*side+1
          edge= pfirst1-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                enddo
              enddo
            else if (extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  factor=beta*b1(edge,k,i)
                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
                enddo
              enddo
            endif
          else
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                enddo
              enddo
            else if (extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  factor=beta*b1(edge,k,i)
                  factor=factor/h*(3.0*h+16.0*b1(edge,k,i))
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
                enddo
              enddo
            endif         
          endif
        elseif (direction.eq.2) then
          ie2 = pfirst2-2*side+1
          edge= pfirst2-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                enddo
              enddo
            else if (extrapOrder.eq.2) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  factor=beta*b2(edge,i,j)
                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
                enddo
              enddo
            endif
          else
            if(extrapOrder.eq.1) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                enddo
              enddo
            else if (extrapOrder.eq.2) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  factor=beta*b2(edge,i,j)
                  factor=factor/h*(3.0*h+16.0*b2(edge,i,j))
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
                enddo
              enddo
            endif         
          endif
        endif
      elseif (bdrytype.eq.1) then
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            do j = pfirst1, plast1
            enddo
         elseif (direction.eq.1) then
            ie1  = pfirst1-side+1
            do i = pfirst0, plast0
            enddo
         endif
      elseif (bdrytype.eq.0) then
        if (direction.eq.0) then
          ie0 = pfirst0-side+1
          if(extrapOrder.eq.1) then
            do k = pfirst2, plast2
              do j = pfirst1, plast1
              enddo
           enddo
          else if (extrapOrder.eq.2) then
            do k = pfirst2, plast2
              do j = pfirst1, plast1
                factor = beta*b0(ie0,j,k)/(3.0d0*(h**2))
                stencil(0,ie0,j,k)=stencil(0,ie0,j,k)+factor
              enddo
            enddo
          endif
        elseif (direction.eq.1) then
          ie1  = pfirst1-side+1
          if(extrapOrder.eq.1) then
            do k = pfirst2, plast2
              do i = pfirst0, plast0
              enddo
            enddo
          else if (extrapOrder.eq.2) then
            do k = pfirst2, plast2
              do i = pfirst0, plast0
                factor = beta*b1(ie1,k,i)/(3.0d0*(h**2))
                stencil(0,i,ie1,k)=stencil(0,i,ie1,k)+factor
              enddo
            enddo
          endif
        elseif (direction.eq.2) then
          ie2  = pfirst2-side+1
          if(extrapOrder.eq.1) then
            do j = pfirst1, plast1
              do i = pfirst0, plast0
              enddo
            enddo
          else if (extrapOrder.eq.2) then
            do j = pfirst1, plast1
              do i = pfirst0, plast0
                factor = beta*b2(ie2,i,j)/(3.0d0*(h**2))
                stencil(0,i,j,ie2)=stencil(0,i,j,ie2)+factor
              enddo
            enddo
          endif
        endif
      endif         
      
      return
      end

      recursive subroutine adjnodepoissondiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,plast0,plast1,plast2,
     &  direction, side, bdrytype
      integer extrapOrder
      double precision dx(0:3-1), beta
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2, edge
      
      double precision factor
      double precision b, h
c
c***********************************************************************
c
      h=dx(direction)
      if (bdrytype.eq.4) then
        b=0.25
        if (direction.eq.0) then
          ie0 = pfirst0-2*side+1
          edge= pfirst0-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                enddo
              enddo
            endif
            if (extrapOrder.eq.2) then
              factor=beta/h*(3.0*h+16.0)
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
                enddo
              enddo
            endif
          else
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                enddo
              enddo
            endif
            if (extrapOrder.eq.2) then
              factor=beta/h*(3.0*h+16.0)
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
                enddo
              enddo
            endif         
          endif
        elseif (direction.eq.1) then
          ie1 = pfirst1-2*side+1
          edge= pfirst1-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                enddo
              enddo
            endif
            if (extrapOrder.eq.2) then
              factor=beta/h*(3.0*h+16.0)
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
                enddo
              enddo
            endif
          else
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                enddo
              enddo
            endif
            if (extrapOrder.eq.2) then
              factor=beta/h*(3.0*h+16.0)
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
                enddo
              enddo
            endif         
          endif
        elseif (direction.eq.2) then
          ie2 = pfirst2-2*side+1
          edge= pfirst2-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                enddo
              enddo
            endif
            if (extrapOrder.eq.2) then
              factor=beta/h*(3.0*h+16.0)
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
                enddo
              enddo
            endif
          else
            if(extrapOrder.eq.1) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                enddo
              enddo
            endif
            if (extrapOrder.eq.2) then
              factor=beta/h*(3.0*h+16.0)
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
                enddo
              enddo
            endif         
          endif
        endif
      elseif (bdrytype.eq.1) then
            if (direction.eq.0) then
               ie0 = pfirst0-side+1
               do j = pfirst1, plast1
               enddo
            elseif (direction.eq.1) then
               ie1  = pfirst1-side+1
               do i = pfirst0, plast0
               enddo
            endif
      elseif (bdrytype.eq.0) then
        if (direction.eq.0) then
          ie0 = pfirst0-side+1
          if(extrapOrder.eq.1) then
            do k = pfirst2, plast2
              do j = pfirst1, plast1
              enddo
            enddo
          else if (extrapOrder.eq.2) then
            factor = beta/(3.0d0*(h**2))
            do k = pfirst2, plast2
              do j = pfirst1, plast1
                stencil(0,ie0,j,k)=stencil(0,ie0,j,k)+factor
              enddo
            enddo
          endif
        elseif (direction.eq.1) then
          ie1  = pfirst1-side+1
          if(extrapOrder.eq.1) then
            do k = pfirst2, plast2
              do i = pfirst0, plast0
              enddo
            enddo
          else if (extrapOrder.eq.2) then
            factor = beta/(3.0d0*(h**2))
            do k = pfirst2, plast2
              do i = pfirst0, plast0
                stencil(0,i,ie1,k)=stencil(0,i,ie1,k)+factor
              enddo
            enddo
          endif
        elseif (direction.eq.2) then
          ie2  = pfirst2-side+1
          if(extrapOrder.eq.1) then
            do j = pfirst1, plast1
              do i = pfirst0, plast0
              enddo
            enddo
          else if (extrapOrder.eq.2) then
            factor = beta/(3.0d0*(h**2))
            do j = pfirst1, plast1
              do i = pfirst0, plast0
                stencil(0,i,j,ie2)=stencil(0,i,j,ie2)+factor
              enddo
            enddo
          endif
        endif
      endif         
      return
      end

      recursive subroutine adjnodediffusioncfdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  r,
     &  direction, side,
     &  interporder,
     &  dx,
     &  beta,
     &  b0, b1, b2,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,plast0,plast1,plast2,
     &  direction, side,
     &  interporder
      integer r
      double precision 
     &  dx(0:3-1), beta
      double precision
     &  b0(ifirst0:ilast0+1,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2),
     &  b1(ifirst1:ilast1+1,
     &          ifirst2:ilast2,
     &          ifirst0:ilast0),
     &  b2(ifirst2:ilast2+1,
     &          ifirst0:ilast0,
     &          ifirst1:ilast1)
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2, edge
      
      double precision factor
      double precision h

      double precision dr,dr1

c r is the refinement ratio, convert to double precision      
      dr = dfloat(r)
      dr1=2.0*(dr-1.0)/(dr+1.0)
c
c***********************************************************************
c
      h=dx(direction)
      if (direction.eq.0) then
         ie0 = pfirst0-2*side+1
         edge= pfirst0-side+1
         if (interporder .eq. 1) then
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  factor=beta*b0(edge,j,k)/(3.0*(h**2))
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
               enddo
            enddo
         else if (interporder .eq. 2) then
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  factor=dr1*beta*b0(edge,j,k)/(h**2)
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
               enddo
            enddo
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1-2*side+1
         edge= pfirst1-side+1
         if (interporder .eq. 1) then
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  factor=beta*b1(edge,k,i)/(3.0*(h**2))
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
               enddo
            enddo
         else if (interporder .eq. 2) then
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  factor=dr1*beta*b1(edge,k,i)/(h**2)
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
               enddo
            enddo
         endif
      elseif (direction.eq.2) then
         ie2 = pfirst2-2*side+1
         edge= pfirst2-side+1
         if (interporder .eq. 1) then
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  factor=beta*b2(edge,i,j)/(3.0*(h**2))
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
               enddo
            enddo
         else if (interporder .eq. 2) then
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  factor=dr1*beta*b1(edge,i,j)/(h**2)
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
               enddo
            enddo
         endif
      endif
      
      return
      end
c
      recursive subroutine adjnodepoissoncfdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  r,
     &  direction, side,
     &  interporder,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,plast0,plast1,plast2,
     &  direction, side,
     &  interporder
      integer r
      double precision dx(0:3-1), beta
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2, edge
      
      double precision factor
      double precision h
      double precision dr,dr1
c r is the refinement ratio, convert to double precision      
      dr = dfloat(r)
      dr1=2.0*(dr-1.0)/(dr+1.0)
c
c***********************************************************************
c
      h=dx(direction)
      if (direction.eq.0) then
         ie0 = pfirst0-2*side+1
         edge= pfirst0-side+1
         if (interporder .eq. 1) then
            factor=beta/(3.0*(h**2))
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
               enddo
            enddo
         else if (interporder .eq. 2) then
            factor=dr1*beta/(h**2)
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  stencil(0,ie0,j,k)=stencil(0,ie0,j,k)-factor
               enddo
            enddo
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1-2*side+1
         edge= pfirst1-side+1
         if (interporder .eq. 1) then
            factor=beta/(3.0*(h**2))
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
               enddo
            enddo
         else if (interporder .eq. 2) then
            factor=dr1*beta/(h**2)
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  stencil(0,i,ie1,k)=stencil(0,i,ie1,k)-factor
               enddo
            enddo
         endif
      elseif (direction.eq.2) then
         ie2 = pfirst2-2*side+1
         edge= pfirst2-side+1
         if (interporder .eq. 1) then
            factor=beta/(3.0*(h**2))
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
               enddo
            enddo
         else if (interporder .eq. 2) then
            factor=dr1*beta/(h**2)
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  stencil(0,i,j,ie2)=stencil(0,i,j,ie2)-factor
               enddo
            enddo
         endif
      endif
      
      return
      end
c
c
      recursive subroutine adjnodediffusionoffdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  dirfactor, neufactor, 
     &  beta,
     &  b0, b1, b2,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      integer pfirst0,pfirst1,pfirst2
      integer plast0,plast1,plast2
      integer direction, side
      integer bdrytype, extrapOrder
      double precision dirfactor, neufactor
      double precision dx(0:3-1), beta
      double precision
     &  b0(ifirst0:ilast0+1,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2),
     &  b1(ifirst1:ilast1+1,
     &          ifirst2:ilast2,
     &          ifirst0:ilast0),
     &  b2(ifirst2:ilast2+1,
     &          ifirst0:ilast0,
     &          ifirst1:ilast1)
      double precision stencil(0:6, ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2
      double precision factor
      double precision h
c
c***********************************************************************
c

      h=dx(direction)

      if (bdrytype.eq.4) then
        if (direction.eq.0) then
          ie0 = pfirst0-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  factor=(2.0*h)/(4.0*b0(ie0,j,k)+h)
                  stencil(1,ie0,j,k)=factor*stencil(1,ie0,j,k)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  factor=beta*b0(ie0,j,k)
                  factor=factor/(h*(3.0*h+16.0*b0(ie0,j,k)))
                  stencil(1,ie0,j,k)=-9.0*factor
                  stencil(2,ie0,j,k)=stencil(2,ie0,j,k)-factor 
                enddo
              enddo
            endif                 
          else
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  factor=2.0*h/(4.0*b0(ie0,j,k)+h)
                  stencil(2,ie0-1,j,k)=factor*stencil(2,ie0-1,j,k)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  factor=beta*b0(ie0,j,k)
                  factor=factor/(h*(3.0*h+16.0*b0(ie0,j,k)))
                  stencil(2,ie0-1,j,k)=-9.0*factor
                  stencil(1,ie0-1,j,k)=stencil(1,ie0-1,j,k)-factor
                enddo
              enddo
            endif
          endif
        elseif (direction.eq.1) then
          ie1 = pfirst1-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  factor=(2.0*h)/(4.0*b1(ie1,k,i)+h)
                  stencil(3,i,ie1,k)=factor*stencil(3,i,ie1,k)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  factor=beta*b1(ie1,k,i)
                  factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                  stencil(3,i,ie1,k)=-9.0*factor
                  stencil(4,i,ie1,k)=stencil(4,i,ie1,k)-factor 
                enddo
              enddo
            endif                 
          else
            if(extrapOrder.eq.1) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  factor=2.0*h/(4.0*b1(ie1,k,i)+h)
                  stencil(4,i,ie1-1,k)=factor*stencil(4,i,ie1-1,k)
              enddo
              enddo
            else if(extrapOrder.eq.2) then
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  factor=beta*b1(ie1,k,i)
                  factor=factor/(h*(3.0*h+16.0*b1(ie1,k,i)))
                  stencil(4,i,ie1-1,k)=-9.0*factor
                  stencil(3,1,ie1-1,k)=stencil(3,i,ie1-1,k)-factor
                enddo
              enddo
            endif
          endif
        elseif (direction.eq.2) then
          ie2 = pfirst2-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  factor=(2.0*h)/(4.0*b2(ie2,i,j)+h)
                  stencil(5,i,j,ie2)=factor*stencil(5,i,j,ie2)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  factor=beta*b2(ie2,i,j)
                  factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                  stencil(5,i,j,ie2)=-9.0*factor
                  stencil(6,i,j,ie2)=stencil(6,i,j,ie2)-factor 
                enddo
              enddo
            endif                 
          else
            if(extrapOrder.eq.1) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  factor=2.0*h/(4.0*b2(ie2,i,j)+h)
                  stencil(6,i,j,ie2-1)=factor*stencil(6,i,j,ie2-1)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  factor=beta*b2(ie2,i,j)
                  factor=factor/(h*(3.0*h+16.0*b2(ie2,i,j)))
                  stencil(6,i,j,ie2-1)=-9.0*factor
                  stencil(5,1,j,ie2-1)=stencil(5,i,j,ie2-1)-factor
                enddo
              enddo
            endif
          endif
        endif
      else if (bdrytype.eq.0) then
         factor=dirfactor
         if (direction.eq.0) then
           ie0 = pfirst0-side+1
           if( side. eq. 0) then
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(1,ie0,j,k) = stencil(1,ie0,j,k)*factor
                 enddo
               enddo
             endif
             if(extrapOrder.eq.2) then
                do k = pfirst2, plast2
                  do j = pfirst1, plast1
                    stencil(2,ie0,j,k) = stencil(2,ie0,j,k)
     &                                   +stencil(1,ie0,j,k)/3.0
                    stencil(1,ie0,j,k) = 8.0*stencil(1,ie0,j,k)/3.0
                  enddo
                enddo                     
             endif
           else
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(2,ie0-1,j,k) = stencil(2,ie0-1,j,k)*factor
                 enddo
               enddo
             endif
             if(extrapOrder.eq.2) then
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(1,ie0-1,j,k)=stencil(1,ie0-1,j,k)
     &                                  +stencil(2,ie0-1,j,k)/3.0
                   stencil(2,ie0-1,j,k)= 8.0*stencil(2,ie0-1,j,k)/3.0
                 enddo
               enddo
             endif
           endif
         elseif (direction.eq.1) then
           ie1 = pfirst1-side+1
           if( side .eq. 0) then
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                    stencil(3,i,ie1,k) = stencil(3,i,ie1,k)*factor
                 enddo
               enddo               
             else if(extrapOrder.eq.2) then
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(4,i,ie1,k)=stencil(4,i,ie1,k)
     &                                +stencil(3,i,ie1,k)/3.0
                   stencil(3,i,ie1,k)=8.0*stencil(3,i,ie1,k)/3.0
                 enddo
               enddo               
             endif
           else
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                    stencil(4,i,ie1-1,k) = stencil(4,i,ie1-1,k)*factor
                 enddo
               enddo
             else if(extrapOrder.eq.2) then
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(3,i,ie1-1,k)=stencil(3,i,ie1-1,k)
     &                                  +stencil(4,i,ie1-1,k)/3.0
                   stencil(4,i,ie1-1,k)=8.0*stencil(4,i,ie1-1,k)/3.0
                 enddo
               enddo
             endif
           endif
         elseif (direction.eq.2) then
           ie2 = pfirst2-side+1
           if( side .eq. 0) then
             if(extrapOrder.eq.1) then                    
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                    stencil(5,i,j,ie2) = stencil(5,i,j,ie2)*factor
                 enddo
               enddo               
             else if(extrapOrder.eq.2) then
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(6,i,j,ie2)=stencil(6,i,j,ie2)
     &                                +stencil(5,i,j,ie2)/3.0
                   stencil(5,i,j,ie2)=8.0*stencil(5,i,j,ie2)/3.0
                 enddo
               enddo               
             endif
           else
             if(extrapOrder.eq.1) then                    
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                    stencil(6,i,j,ie2-1) = stencil(6,i,j,ie2-1)*factor
                 enddo
               enddo
             else if(extrapOrder.eq.2) then
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(5,i,j,ie2-1)=stencil(5,i,j,ie2-1)
     &                                  +stencil(6,i,j,ie2-1)/3.0
                   stencil(6,i,j,ie2-1)=8.0*stencil(6,i,j,ie2-1)/3.0
                 enddo
               enddo
             endif
           endif
         endif
      else if (bdrytype.eq.1) then
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            if(side .eq. 0) then
               do k = pfirst2, plast2
                  do j = pfirst1, plast1
                     stencil(1,ie0,j,k) = 0.0d0
                  enddo
               enddo
            else
               do k = pfirst2, plast2
                  do j = pfirst1, plast1
                     stencil(2,ie0-1,j,k) = 0.0d0
                  enddo                  
               enddo
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-side+1
            if(side .eq. 0) then
               do k = pfirst2, plast2
                  do i = pfirst0, plast0
                     stencil(3,i,ie1,k) = 0.0d0
                  enddo
               enddo
            else
               do k = pfirst2, plast2
                  do i = pfirst0, plast0
                     stencil(4,i,ie1-1,k) = 0.0d0
                  enddo
               enddo
            endif
         elseif (direction.eq.2) then
            ie2 = pfirst2-side+1
            if(side .eq. 0) then
               do j = pfirst1, plast1
                  do i = pfirst0, plast0
                     stencil(5,i,j,ie2) = 0.0d0
                  enddo
               enddo
            else
               do j = pfirst1, plast1
                  do i = pfirst0, plast0
                     stencil(6,i,j,ie2-1) = 0.0d0
                  enddo
               enddo
            endif
         endif
      endif      
c     
      return
      end
c
      recursive subroutine adjnodepoissonoffdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  dirfactor, neufactor, 
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ifirst2,ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,plast0,plast1,plast2,
     &  direction, side, bdrytype,
     &  extrapOrder
      double precision dirfactor, neufactor
      double precision dx(0:3-1), beta
      double precision stencil(0:6, ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2
      double precision factor
      double precision h
c
c***********************************************************************
c
c for now we will only do the dir=0 robin boundary conditions
c we will also assume homogenous boundary conditions for now
c     
      h=dx(direction)

      if (bdrytype.eq.4) then
        if (direction.eq.0) then
          ie0 = pfirst0-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              factor=(2.0*h)/(4.0+h)
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  stencil(1,ie0,j,k)=factor*stencil(1,ie0,j,k)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              factor=beta/(h*(3.0*h+16.0))
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  stencil(1,ie0,j,k)=-9.0*factor
                  stencil(2,ie0,j,k)=stencil(2,ie0,j,k)-factor 
                enddo
              enddo
            endif                 
          else
            if(extrapOrder.eq.1) then
              factor=2.0*h/(4.0+h)
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  stencil(2,ie0-1,j,k)=factor*stencil(2,ie0-1,j,k)
              enddo
              enddo
            else if(extrapOrder.eq.2) then
              factor=beta/(h*(3.0*h+16.0))
              do k = pfirst2, plast2
                do j = pfirst1, plast1
                  stencil(2,ie0-1,j,k)=-9.0*factor
                  stencil(1,ie0-1,j,k)=stencil(1,ie0-1,j,k)-factor
                enddo
              enddo
            endif
          endif
        elseif (direction.eq.1) then
          ie1 = pfirst1-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              factor=(2.0*h)/(4.0+h)
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  stencil(3,i,ie1,k)=factor*stencil(3,i,ie1,k)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              factor=beta/(h*(3.0*h+16.0))
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  stencil(3,i,ie1,k)=-9.0*factor
                  stencil(4,i,ie1,k)=stencil(4,i,ie1,k)-factor 
                enddo
              enddo
            endif                 
          else
            if(extrapOrder.eq.1) then
              factor=2.0*h/(4.0+h)
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  stencil(4,i,ie1-1,k)=factor*stencil(4,i,ie1-1,k)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              factor=beta/(h*(3.0*h+16.0d0))
              do k = pfirst2, plast2
                do i = pfirst0, plast0
                  stencil(4,i,ie1-1,k)=-9.0*factor
                  stencil(3,1,ie1-1,k)=stencil(3,i,ie1-1,k)-factor
                enddo
              enddo
            endif
          endif
        elseif (direction.eq.2) then
          ie2 = pfirst2-side+1
          if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
              factor=(2.0*h)/(4.0+h)
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  stencil(5,i,j,ie2)=factor*stencil(5,i,j,ie2)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              factor=beta/(h*(3.0*h+16.0))
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  stencil(5,i,j,ie2)=-9.0*factor
                  stencil(6,i,j,ie2)=stencil(6,i,j,ie2)-factor 
                enddo
              enddo
            endif                 
          else
            if(extrapOrder.eq.1) then
              factor=2.0*h/(4.0+h)
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  stencil(6,i,j,ie2-1)=factor*stencil(6,i,j,ie2-1)
                enddo
              enddo
            else if(extrapOrder.eq.2) then
              factor=beta/(h*(3.0*h+16.0))
              do j = pfirst1, plast1
                do i = pfirst0, plast0
                  stencil(6,i,j,ie2-1)=-9.0*factor
                  stencil(5,1,j,ie2-1)=stencil(5,i,j,ie2-1)-factor
                enddo
              enddo
            endif
          endif
        endif
      else if (bdrytype.eq.0) then
         factor=dirfactor
         if (direction.eq.0) then
           ie0 = pfirst0-side+1
           if( side. eq. 0) then
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(1,ie0,j,k) = stencil(1,ie0,j,k)*factor
                 enddo
               enddo
             elseif(extrapOrder.eq.2) then
                do k = pfirst2, plast2
                  do j = pfirst1, plast1
                    stencil(2,ie0,j,k) = stencil(2,ie0,j,k)
     &                                   +stencil(1,ie0,j,k)/3.0
                    stencil(1,ie0,j,k) = 8.0*stencil(1,ie0,j,k)/3.0
                  enddo
                enddo                     
             endif
           else
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(2,ie0-1,j,k) = stencil(2,ie0-1,j,k)*factor
                 enddo
               enddo
             else if(extrapOrder.eq.2) then
               do k = pfirst2, plast2
                 do j = pfirst1, plast1
                   stencil(1,ie0-1,j,k)=stencil(1,ie0-1,j,k)
     &                                  +stencil(2,ie0-1,j,k)/3.0
                   stencil(2,ie0-1,j,k)= 8.0*stencil(2,ie0-1,j,k)/3.0
                 enddo
               enddo
             endif
           endif
         elseif (direction.eq.1) then
           ie1 = pfirst1-side+1
           if( side .eq. 0) then
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                    stencil(3,i,ie1,k) = stencil(3,i,ie1,k)*factor
                 enddo
               enddo               
             else if(extrapOrder.eq.2) then
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(4,i,ie1,k)=stencil(4,i,ie1,k)
     &                                +stencil(3,i,ie1,k)/3.0
                   stencil(3,i,ie1,k)=8.0*stencil(3,i,ie1,k)/3.0
                 enddo
               enddo               
             endif
           else
             if(extrapOrder.eq.1) then                    
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                    stencil(4,i,ie1-1,k) = stencil(4,i,ie1-1,k)*factor
                 enddo
               enddo
             else if(extrapOrder.eq.2) then
               do k = pfirst2, plast2
                 do i = pfirst0, plast0
                   stencil(3,i,ie1-1,k)=stencil(3,i,ie1-1,k)
     &                                  +stencil(4,i,ie1-1,k)/3.0
                   stencil(4,i,ie1-1,k)=8.0*stencil(4,i,ie1-1,k)/3.0
                 enddo
               enddo
             endif
           endif
         elseif (direction.eq.2) then
           ie2 = pfirst2-side+1
           if( side .eq. 0) then
             if(extrapOrder.eq.1) then                    
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                    stencil(5,i,j,ie2) = stencil(5,i,j,ie2)*factor
                 enddo
               enddo               
             else if(extrapOrder.eq.2) then
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(6,i,j,ie2)=stencil(6,i,j,ie2)
     &                                +stencil(5,i,j,ie2)/3.0
                   stencil(5,i,j,ie2)=8.0*stencil(5,i,j,ie2)/3.0
                 enddo
               enddo               
             endif
           else
             if(extrapOrder.eq.1) then                    
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                    stencil(6,i,j,ie2-1) = stencil(6,i,j,ie2-1)*factor
                 enddo
               enddo
             else if(extrapOrder.eq.2) then
               do j = pfirst1, plast1
                 do i = pfirst0, plast0
                   stencil(5,i,j,ie2-1)=stencil(5,i,j,ie2-1)
     &                                  +stencil(6,i,j,ie2-1)/3.0
                   stencil(6,i,j,ie2-1)=8.0*stencil(6,i,j,ie2-1)/3.0
                 enddo
               enddo
             endif
           endif
         endif
      else if (bdrytype.eq.1) then
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            if(side .eq. 0) then
               do k = pfirst2, plast2
                  do j = pfirst1, plast1
                     stencil(1,ie0,j,k) = 0.0d0
                  enddo
               enddo
            else
               do k = pfirst2, plast2
                  do j = pfirst1, plast1
                     stencil(2,ie0-1,j,k) = 0.0d0
                  enddo                  
               enddo
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-side+1
            if(side .eq. 0) then
               do k = pfirst2, plast2
                  do i = pfirst0, plast0
                     stencil(3,i,ie1,k) = 0.0d0
                  enddo
               enddo
            else
               do k = pfirst2, plast2
                  do i = pfirst0, plast0
                     stencil(4,i,ie1-1,k) = 0.0d0
                  enddo
               enddo
            endif
         elseif (direction.eq.2) then
            ie2 = pfirst2-side+1
            if(side .eq. 0) then
               do j = pfirst1, plast1
                  do i = pfirst0, plast0
                     stencil(5,i,j,ie2) = 0.0d0
                  enddo
               enddo
            else
               do j = pfirst1, plast1
                  do i = pfirst0, plast0
                     stencil(6,i,j,ie2-1) = 0.0d0
                  enddo
               enddo
            endif
         endif
      endif      

      return
      end
c
c
      recursive subroutine adjnodediffusioncfoffdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  cfirst0,cfirst1,cfirst2,
     & clast0,clast1,clast2,
     &  r,
     &  direction, side,
     &  interporder,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      integer cfirst0,cfirst1,cfirst2
      integer clast0,clast1,clast2
      integer direction, side
      integer r
      integer interporder
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2
      integer offset
      double precision dr

c r is the refinement ratio, convert to double precision      
      dr = dfloat(r)
c     
c***********************************************************************
      offset=1-2*side
      if (direction.eq.0) then
         ie0 = cfirst0-side+1
         if(side.eq.0) then
            if(interporder .eq. 1) then
               do k = cfirst2, clast2
                  do j = cfirst1, clast1
                     stencil(1,ie0,j,k)=2.0*stencil(1,ie0,j,k)/3.0
                  enddo
               enddo
            else if(interporder .eq. 2) then
               do k = cfirst2, clast2
                  do j = cfirst1, clast1
                     stencil(2,ie0,j,k) = stencil(2,ie0,j,k)
     &                           -stencil(1,ie0,j,k)*(dr-1.0)/(dr+3.0)
                     stencil(1,ie0,j,k)=
     &                       8.0*stencil(1,ie0,j,k)/((dr+1.0)*(dr+3.0))
                  enddo
               enddo
            endif
         else 
            if(interporder .eq. 1) then
               do k = cfirst2, clast2
                  do j = cfirst1, clast1
                     stencil(2,ie0-1,j,k)=2.0*stencil(2,ie0-1,j,k)/3.0
                  enddo
               enddo
            else if(interporder .eq. 2) then
               do k = cfirst2, clast2
                  do j = cfirst1, clast1
                     stencil(1,ie0-1,j,k) = stencil(1,ie0-1,j,k)
     &                    -stencil(2,ie0-1,j,k)*(dr-1.0)/(dr+3.0)
                     stencil(2,ie0-1,j,k)=
     &                    8.0*stencil(2,ie0-1,j,k)/((dr+1.0)*(dr+3.0))
                  enddo
               enddo
            endif
         endif
      elseif (direction.eq.1) then
         ie1 = cfirst1-side+1
         if(side.eq.0) then
            if(interporder .eq. 1) then
               do k = cfirst2, clast2
                  do i = cfirst0, clast0
                     stencil(3,i,ie1,k)=2.0*stencil(3,i,ie1,k)/3.0
                  enddo
               enddo
            else if(interporder .eq. 2) then
               do k = cfirst2, clast2
                  do i = cfirst0, clast0
                     stencil(4,i,ie1,k) = stencil(4,i,ie1,k)
     &                    -stencil(3,i,ie1,k)*(dr-1.0)/(dr+3.0)
                     stencil(3,i,ie1,k)=
     &                    8.0*stencil(3,i,ie1,k)/((dr+1.0)*(dr+3.0))
                  enddo
               enddo
            endif
         else
            if(interporder .eq. 1) then
               do k = cfirst2, clast2
                  do i = cfirst0, clast0
                     stencil(4,i,ie1-1,k)=2.0*stencil(4,i,ie1-1,k)/3.0
                  enddo
               enddo
            else if(interporder .eq. 2) then
               do k = cfirst2, clast2
                  do i = cfirst0, clast0
                     stencil(3,i,ie1-1,k) = stencil(3,i,ie1-1,k)
     &                    -stencil(4,i,ie1-1,k)*(dr-1.0)/(dr+3.0)
                     stencil(4,i,ie1-1,k)=
     &                    8.0*stencil(4,i,ie1-1,k)/((dr+1.0)*(dr+3.0))
                  enddo
               enddo
            endif
         endif
      elseif (direction.eq.2) then
         ie2 = cfirst2-side+1
         if(side.eq.0) then
            if(interporder .eq. 1) then
               do j = cfirst1, clast1
                  do i = cfirst0, clast0
                     stencil(5,i,j,ie2)=2.0*stencil(5,i,j,ie2)/3.0
                  enddo
               enddo
            else if(interporder .eq. 2) then
               do j = cfirst1, clast1
                  do i = cfirst0, clast0
                     stencil(6,i,j,ie2) = stencil(6,i,j,ie2)
     &                    -stencil(5,i,j,ie2)*(dr-1.0)/(dr+3.0)
                     stencil(5,i,j,ie2)=
     &                    8.0*stencil(5,i,j,ie2)/((dr+1.0)*(dr+3.0))
                  enddo
               enddo
            endif
         else
            if(interporder .eq. 1) then
               do j = cfirst1, clast1
                  do i = cfirst0, clast0
                     stencil(6,i,j,ie2-1)=2.0*stencil(6,i,j,ie2-1)/3.0
                  enddo
               enddo
            else if(interporder .eq. 2) then
               do j = cfirst1, clast1
                  do i = cfirst0, clast0
                     stencil(5,i,j,ie2-1) = stencil(5,i,j,ie2-1)
     &                    -stencil(6,i,j,ie2-1)*(dr-1.0)/(dr+3.0)
                     stencil(6,i,j,ie2-1)=
     &                    8.0*stencil(6,i,j,ie2-1)/((dr+1.0)*(dr+3.0))
                  enddo
               enddo
            endif
         endif
      endif
      return
      end
c
c
      recursive subroutine readjnodediffusionoffdiag3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  direction, side,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      integer pfirst0,pfirst1,pfirst2
      integer plast0,plast1,plast2
      integer direction, side
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2
c
c***********************************************************************
c

      if (direction.eq.0) then
         ie0 = pfirst0-side+1
         if(side .eq. 0) then
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  stencil(1,ie0,j,k) = 0.0
               enddo
            enddo
         else
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  stencil(2,ie0-1,j,k) = 0.0
               enddo
            enddo
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1-side+1
         if(side .eq. 0) then
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  stencil(3,i,ie1,k) = 0.0
               enddo
            enddo
         else
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  stencil(4,i,ie1-1,k) = 0.0
               enddo
            enddo
         endif
      elseif (direction.eq.2) then
         ie2 = pfirst1-side+1
         if(side .eq. 0) then
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  stencil(5,i,j,ie2) = 0.0
               enddo
            enddo
         else
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  stencil(6,i,j,ie2-1) = 0.0
               enddo
            enddo
         endif
      endif
c
      return
      end
c
c
      recursive subroutine adjnodediffusioncfbdryrhs3d(
     &  ifirst0,ifirst1,ifirst2,
     &  ilast0,ilast1,ilast2,
     &  pfirst0,pfirst1,pfirst2,
     &  plast0,plast1,plast2,
     &  direction, side,
     &  stencil,
     &  gcw,
     &  u, rhs)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ifirst2
      integer ilast0,ilast1,ilast2
      integer pfirst0,pfirst1,pfirst2
      integer plast0,plast1,plast2
      integer direction, side
      double precision stencil(0:6,ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer gcw
      double precision u(ifirst0-gcw:ilast0+gcw,
     &          ifirst1-gcw:ilast1+gcw,
     &          ifirst2-gcw:ilast2+gcw)
      double precision rhs(ifirst0:ilast0,
     &          ifirst1:ilast1,
     &          ifirst2:ilast2)
      integer i,j,k,ie0,ie1,ie2
c
c***********************************************************************
c

      if (direction.eq.0) then
         ie0 = pfirst0+1-(2*side)
         if(side.eq.0) then
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  rhs(ie0,j,k) = rhs(ie0,j,k) -
     &                 stencil(1,ie0,j,k)*u(ie0-1,j,k)
               enddo
            enddo
         else
            do k = pfirst2, plast2
               do j = pfirst1, plast1
                  rhs(ie0,j,k) = rhs(ie0,j,k) -
     &                 stencil(2,ie0,j,k)*u(ie0+1,j,k)
               enddo
            enddo
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1+1-(2*side)
         if(side.eq.0) then
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  rhs(i,ie1,k) = rhs(i,ie1,k)-
     &                 stencil(3,i,ie1,k)*u(i,ie1-1,k)
               enddo
            enddo
         else
            do k = pfirst2, plast2
               do i = pfirst0, plast0
                  rhs(i,ie1,k) = rhs(i,ie1,k)-
     &                 stencil(4,i,ie1,k)*u(i,ie1+1,k)
               enddo
            enddo
         endif
      elseif (direction.eq.2) then
         ie2 = pfirst2+1-(2*side)
         if(side.eq.0) then
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  rhs(i,j,ie2) = rhs(i,j,ie2)-
     &                 stencil(5,i,j,ie2)*u(i,j,ie2-1)
               enddo
            enddo
         else
            do j = pfirst1, plast1
               do i = pfirst0, plast0
                  rhs(i,j,ie2) = rhs(i,j,ie2)-
     &                 stencil(6,i,j,ie2)*u(i,j,ie2+1)
               enddo
            enddo
         endif
      endif
      return
      end
