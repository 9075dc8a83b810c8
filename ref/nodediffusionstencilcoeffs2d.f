C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        nodediffusionstencilcoeffs2d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2001 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2727 $
c  Modified:    $Date: 2006-06-22 15:52:36 -0600 (Thu, 22 Jun 2006) $
c  Description: F77 routines that compute matrix entries for 2d node centered diffusion solver.
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 2d arrays in FORTRAN routines.
c
c
c
      recursive subroutine nodediffusionoffdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  bilo0,bilo1,bihi0,bihi1,
     &  dx,
     &  beta,
     &  b0,b1,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  bilo0,bilo1,bihi0,bihi1
      double precision
     &  dx(0:2-1),beta,
     &  b0(bilo0:bihi0+1,
     &          bilo1:bihi1),
     &  b1(bilo1:bihi1+1,
     &          bilo0:bihi0)

      double precision stencil(0:4, ifirst0:ilast0,
     &          ifirst1:ilast1)

      integer ie0,ic1
      double precision d0, d1
c
c***********************************************************************
c
c using face data for b0,b1 will slow down the creation
c of the stencils significantly. we should move to using
c side data for b0,b1
      
      d0 = -beta / (dx(0)*dx(0))
      d1 = -beta / (dx(1)*dx(1))
      
      do ic1 = ifirst1, ilast1
         do ie0 = ifirst0, ilast0
            stencil(1, ie0  ,ic1) = d0*b0(ie0  ,ic1) 
            stencil(2, ie0  ,ic1) = d0*b0(ie0+1,ic1) 
            stencil(3, ie0  ,ic1) = d1*b1(ic1  ,ie0 ) 
            stencil(4, ie0  ,ic1) = d1*b1(ic1+1,ie0) 
         enddo
      enddo
      
      return
      end
c     
      recursive subroutine nodepoissonoffdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1
      double precision dx(0:2-1),beta

      double precision stencil(0:4, ifirst0:ilast0,
     &          ifirst1:ilast1)

      integer ie0,ic1
      double precision d0, d1
c
c***********************************************************************
c
      d0 = -beta / (dx(0)*dx(0))
      d1 = -beta / (dx(1)*dx(1))
      
      do ic1 = ifirst1, ilast1
         do ie0 = ifirst0, ilast0
            stencil(1, ie0  ,ic1) = d0
            stencil(2, ie0  ,ic1) = d0
            stencil(3, ie0  ,ic1) = d1
            stencil(4, ie0  ,ic1) = d1
         enddo
      enddo
      
      return
      end
c
c
      recursive subroutine nodediffusionv1diag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  ailo0,ailo1,aihi0,aihi1,
     &  alpha,
     &  a,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  ailo0,ailo1,aihi0,aihi1
      double precision
     &  alpha,
     &  a(ailo0:aihi0,
     &          ailo1:aihi1)
      double precision stencil(0:4, ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1
c
c***********************************************************************
c

      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            stencil(0, ic0,ic1) = -(stencil(1, ic0,ic1) 
     &                             + stencil(2, ic0,ic1) 
     &                             + stencil(3, ic0,ic1) 
     &                             + stencil(4, ic0,ic1) )
     &                      + alpha * a(ic0,ic1)
         enddo
      enddo
c
      return
      end
c
c     
      recursive subroutine nodediffusionv2diag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  alpha,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ilast0,ilast1
      double precision alpha
      double precision stencil(0:4, ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1

c
c***********************************************************************
c
      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            stencil(0, ic0,ic1) = -(stencil(1, ic0,ic1) 
     &                             + stencil(2, ic0,ic1) 
     &                             + stencil(3, ic0,ic1) 
     &                             + stencil(4, ic0,ic1) )
     &                             + alpha
         enddo
      enddo
c
      return
      end
c
c     
      recursive subroutine nodepoissondiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ifirst1,ilast0,ilast1
      double precision stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1

c     
c***********************************************************************
c

      do ic1 = ifirst1, ilast1
         do ic0 = ifirst0, ilast0
            stencil(0, ic0,ic1) = -(stencil(1, ic0,ic1) 
     &                             + stencil(2, ic0,ic1) 
     &                             + stencil(3, ic0,ic1) 
     &                             + stencil(4, ic0,ic1) )
         enddo
      enddo
c
      return
      end
c
c
      recursive subroutine adjnodediffusiondiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  beta,
     &  b0, b1,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side, bdrytype
      integer extrapOrder
      double precision 
     &  dx(0:2-1), beta
      double precision
     &  b0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  b1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      double precision stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1, edge
      
      double precision factor
      double precision b, h
c
c***********************************************************************
c
      if (bdrytype.eq.4) then
         if (direction.eq.0) then
            ie0 = pfirst0-2*side+1
            edge= pfirst0-side+1
            b=0.25
            h=dx(0)
            if (side .eq. 0 ) then
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                  else if (extrapOrder.eq.2) then
                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
                    stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
                  endif
               enddo
            else
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                  else if (extrapOrder.eq.2) then
                    factor=beta*b0(edge,ic1)/h*(3.0*h+16.0*b0(edge,ic1))
                    stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
                  endif
               end do
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-2*side+1
            do ic0 = pfirst0, plast0
            enddo
         endif

      else
         if (bdrytype.eq.1) then
            if (direction.eq.0) then
               ie0 = pfirst0-side+1
               do ic1 = pfirst1, plast1
               enddo
            elseif (direction.eq.1) then
               ie1  = pfirst1-side+1
               do ic0 = pfirst0, plast0
               enddo
            endif
         elseif (bdrytype.eq.0) then
            if (direction.eq.0) then
               ie0 = pfirst0-side+1
               h=dx(0)
               if(extrapOrder.eq.1) then
                  do ic1 = pfirst1, plast1
                  enddo
               else if (extrapOrder.eq.2) then
                  do ic1 = pfirst1, plast1
                     factor = beta*b0(ie0,ic1)/(3.0d0*(h**2))
                     stencil(0,ie0,ic1)=stencil(0,ie0,ic1)+factor
                  enddo
               endif
            elseif (direction.eq.1) then
               ie1  = pfirst1-side+1
               h=dx(1)
               if(extrapOrder.eq.1) then
                  do ic0 = pfirst0, plast0
                  enddo
               else if (extrapOrder.eq.2) then
                  do ic0 = pfirst0, plast0
                     factor = beta*b1(ie1,ic0)/(3.0d0*(h**2))
                     stencil(0,ic0,ie1)=stencil(0,ic0,ie1)+factor
                  enddo
               endif
            endif
         endif         
      endif
      
      return
      end

      recursive subroutine adjnodepoissondiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side, bdrytype
      integer extrapOrder
      double precision 
     &  dx(0:2-1), beta
      double precision stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1, edge
      
      double precision factor
      double precision b, h
c
c***********************************************************************
c
      if (bdrytype.eq.4) then
         if (direction.eq.0) then
            ie0 = pfirst0-2*side+1
            edge= pfirst0-side+1
            b=0.25
            h=dx(0)
            if (side .eq. 0 ) then
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                  else if (extrapOrder.eq.2) then
                    factor=beta/h*(3.0*h+16.0)
                    stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
                  endif
               enddo
            else
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                  else if (extrapOrder.eq.2) then
                    factor=beta/h*(3.0*h+16.0)
                    stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
                  endif
               end do
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-2*side+1
            do ic0 = pfirst0, plast0
            enddo
         endif

      else
         if (bdrytype.eq.1) then
            if (direction.eq.0) then
               ie0 = pfirst0-side+1
               do ic1 = pfirst1, plast1
               enddo
            elseif (direction.eq.1) then
               ie1  = pfirst1-side+1
               do ic0 = pfirst0, plast0
               enddo
            endif
         elseif (bdrytype.eq.0) then
            if (direction.eq.0) then
               ie0 = pfirst0-side+1
               do ic1 = pfirst1, plast1
               enddo
            elseif (direction.eq.1) then
               ie1  = pfirst1-side+1
               do ic0 = pfirst0, plast0
               enddo
            endif
         endif         
      endif

      return
      end

      recursive subroutine adjnodediffusioncfdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  r,
     &  direction, side,
     &  interporder,
     &  dx,
     &  beta,
     &  b0, b1,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  interporder
      integer r
      double precision 
     &  dx(0:2-1), beta
      double precision
     &  b0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  b1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      double precision
     &  stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1, edge
      
      double precision factor
      double precision h

      double precision dr,dr1

c r is the refinement ratio, convert to double precision      
      dr = dfloat(r)
      dr1=2.0*(dr-1.0)/(dr+1.0)
c
c***********************************************************************
c
      if (direction.eq.0) then
         ie0 = pfirst0-2*side+1
         edge= pfirst0-side+1
         h=dx(0)
         if (interporder .eq. 1) then
            do ic1 = pfirst1, plast1
               factor=beta*b0(edge,ic1)/(3.0*(h**2))
               stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
            enddo
         else if (interporder .eq. 2) then
            do ic1 = pfirst1, plast1
             factor=dr1*beta*b0(edge,ic1)/(h**2)
             stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
            enddo
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1-2*side+1
         edge= pfirst1-side+1
         h=dx(1)
         if (interporder .eq. 1) then
            do ic0 = pfirst0, plast0
               factor=beta*b1(edge,ic0)/(3.0*(h**2))
               stencil(0,ic0,ie1)=stencil(0,ic0,ie1)-factor
            enddo
         else if (interporder .eq. 2) then
            do ic0 = pfirst0, plast0
             factor=dr1*beta*b1(edge,ic0)/(h**2)
             stencil(0,ic0,ie1)=stencil(0,ic0,ie1)-factor
            enddo
         endif
      endif
      
      return
      end
c
      recursive subroutine adjnodepoissoncfdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  r,
     &  direction, side,
     &  interporder,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  interporder
      integer r
      double precision 
     &  dx(0:2-1), beta
      double precision
     &  stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1, edge
      
      double precision factor
      double precision h
      double precision dr,dr1
c r is the refinement ratio, convert to double precision      
      dr = dfloat(r)
      dr1=2.0*(dr-1.0)/(dr+1.0)
c
c***********************************************************************
c
      if (direction.eq.0) then
         ie0 = pfirst0-2*side+1
         edge= pfirst0-side+1
         h=dx(0)
         if (interporder .eq. 1) then
            do ic1 = pfirst1, plast1
               factor=beta/(3.0*(h**2))
               stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
            enddo
         else if (interporder .eq. 2) then
            do ic1 = pfirst1, plast1
               factor=dr1*beta/(h**2)
               stencil(0,ie0,ic1)=stencil(0,ie0,ic1)-factor
            enddo
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1-2*side+1
         edge= pfirst1-side+1
         h=dx(1)
         if (interporder .eq. 1) then
            do ic0 = pfirst0, plast0
               factor=beta/(3.0*(h**2))
               stencil(0,ic0,ie1)=stencil(0,ic0,ie1)-factor
            enddo
         else if (interporder .eq. 2) then
            do ic0 = pfirst0, plast0
               factor=dr1*beta/(h**2)
               stencil(0,ic0,ie1)=stencil(0,ic0,ie1)-factor
            enddo
         endif
      endif
      
      return
      end
c
c
      recursive subroutine adjnodediffusionoffdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  dirfactor, neufactor, 
     &  beta,
     &  b0, b1,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side, bdrytype,
     &  extrapOrder
      double precision
     &  dirfactor, neufactor
      double precision 
     &  dx(0:2-1), beta
      double precision
     &  b0(ifirst0:ilast0+1,
     &          ifirst1:ilast1),
     &  b1(ifirst1:ilast1+1,
     &          ifirst0:ilast0)
      double precision stencil(0:4, ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1
      double precision factor
      double precision h
c
c***********************************************************************
c

      if (bdrytype.eq.4) then
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            h=dx(0)
            if (side .eq. 0 ) then
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                    factor=(2.0*h)/(4.0*b0(ie0,ic1)+h)
                    stencil(1,ie0,ic1)=factor*stencil(1,ie0,ic1)
                  else if(extrapOrder.eq.2) then
                    factor=beta*b0(ie0,ic1)/(h*(3.0*h+16.0*b0(ie0,ic1)))
                    stencil(1,ie0,ic1)=-9.0*factor
                    stencil(2,ie0,ic1)=stencil(2,ie0,ic1)-factor 
                  endif                 
               enddo
            else
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                    factor=2.0*h/(4.0*b0(ie0,ic1)+h)
                    stencil(2,ie0-1,ic1)=factor*stencil(2,ie0-1,ic1)
                  else if(extrapOrder.eq.2) then
                    factor=beta*b0(ie0,ic1)/(h*(3.0*h+16.0*b0(ie0,ic1)))
                    stencil(2,ie0-1,ic1)=-9.0*factor
                    stencil(1,ie0-1,ic1)=stencil(1,ie0-1,ic1)-factor
                  endif
               enddo
            endif
         elseif (direction.eq.1) then
c Robin bc's for dir=1 not implemented
            ie1 = pfirst1-side+1
            do ic0 = pfirst0, plast0
            enddo
         endif
      else if (bdrytype.eq.0) then
         factor=dirfactor
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            if( side. eq. 0) then
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then                    
                     stencil(1,ie0,ic1) = stencil(1,ie0,ic1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(2,ie0,ic1) = stencil(2,ie0,ic1)
     &                                   +stencil(1,ie0,ic1)/3.0
                     stencil(1,ie0,ic1) = 8.0*stencil(1,ie0,ic1)/3.0
                  endif
               enddo
            else
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then                    
                     stencil(2,ie0-1,ic1) = stencil(2,ie0-1,ic1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(1,ie0-1,ic1)=stencil(1,ie0-1,ic1)
     &                                   +stencil(2,ie0-1,ic1)/3.0
                     stencil(2,ie0-1,ic1)= 8.0*stencil(2,ie0-1,ic1)/3.0
                  endif
               enddo
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-side+1
            if( side .eq. 0) then
               do ic0 = pfirst0, plast0
                  if(extrapOrder.eq.1) then                    
                     stencil(3,ic0,ie1) = stencil(3,ic0,ie1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(4,ic0,ie1)=stencil(4,ic0,ie1)
     &                                 +stencil(3,ic0,ie1)/3.0
                     stencil(3,ic0,ie1)=8.0*stencil(3,ic0,ie1)/3.0
                  endif
               enddo
            else
               do ic0 = pfirst0, plast0
                  if(extrapOrder.eq.1) then                    
                     stencil(4,ic0,ie1-1) = stencil(4,ic0,ie1-1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(3,ic0,ie1-1)=stencil(3,ic0,ie1-1)
     &                                   +stencil(4,ic0,ie1-1)/3.0
                     stencil(4,ic0,ie1-1)=8.0*stencil(4,ic0,ie1-1)/3.0
                  endif
               enddo
            endif
         endif
      else if (bdrytype.eq.1) then
         factor = neufactor
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            if(side .eq. 0) then
               do ic1 = pfirst1, plast1
                  stencil(1,ie0,ic1) = 0.0d0
               enddo
            else
               do ic1 = pfirst1, plast1
                  stencil(2,ie0-1,ic1) = 0.0d0
               enddo                  
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-side+1
            if(side .eq. 0) then
               do ic0 = pfirst0, plast0
                  stencil(3,ic0,ie1) = 0.0d0
               enddo
            else
               do ic0 = pfirst0, plast0
                  stencil(4,ic0,ie1-1) = 0.0d0
               enddo
            endif
         endif
      endif      
c     
      return
      end
c
      recursive subroutine adjnodepoissonoffdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  dirfactor, neufactor, 
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side, bdrytype,
     &  extrapOrder
      double precision
     &  dirfactor, neufactor
      double precision 
     &  dx(0:2-1), beta
      double precision stencil(0:4, ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1
      double precision factor
      double precision h
c
c***********************************************************************
c
c for now we will only do the dir=0 robin boundary conditions
c we will also assume homogenous boundary conditions for now

      if (bdrytype.eq.4) then
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            h=dx(0)
            if (side .eq. 0 ) then
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                    factor=(2.0*h)/(4.0+h)
                    stencil(1,ie0,ic1)=factor*stencil(1,ie0,ic1)
                  else if(extrapOrder.eq.2) then
                    factor=beta/(h*(3.0*h+16.0))
                    stencil(1,ie0,ic1)=-9.0*factor
                    stencil(2,ie0,ic1)=stencil(2,ie0,ic1)-factor 
                  endif                 
               enddo
            else
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then
                    factor=2.0*h/(4.0+h)
                    stencil(2,ie0-1,ic1)=factor*stencil(2,ie0-1,ic1)
                  else if(extrapOrder.eq.2) then
                    factor=beta/(h*(3.0*h+16.0))
                    stencil(2,ie0-1,ic1)=-9.0*factor
                    stencil(1,ie0-1,ic1)=stencil(1,ie0-1,ic1)-factor
                  endif
               enddo
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-side+1
            do ic0 = pfirst0, plast0
            enddo
         endif
      else if (bdrytype.eq.0) then
         factor=dirfactor
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            if( side. eq. 0) then
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then                    
                     stencil(1,ie0,ic1) = stencil(1,ie0,ic1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(2,ie0,ic1) = stencil(2,ie0,ic1)
     &                                   +stencil(1,ie0,ic1)/3.0
                     stencil(1,ie0,ic1) = 8.0*stencil(1,ie0,ic1)/3.0
                  endif
               enddo
            else
               do ic1 = pfirst1, plast1
                  if(extrapOrder.eq.1) then                    
                     stencil(2,ie0-1,ic1) = stencil(2,ie0-1,ic1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(1,ie0-1,ic1)=stencil(1,ie0-1,ic1)
     &                    +stencil(2,ie0-1,ic1)/3.0
                     stencil(2,ie0-1,ic1)= 8.0*stencil(2,ie0-1,ic1)/3.0
                  endif
               enddo
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-side+1
            if( side .eq. 0) then
               do ic0 = pfirst0, plast0
                  if(extrapOrder.eq.1) then                    
                     stencil(3,ic0,ie1) = stencil(3,ic0,ie1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(4,ic0,ie1)=stencil(4,ic0,ie1)
     &                                 +stencil(3,ic0,ie1)/3.0
                     stencil(3,ic0,ie1)=8.0*stencil(3,ic0,ie1)/3.0
                  endif
               enddo
            else
               do ic0 = pfirst0, plast0
                  if(extrapOrder.eq.1) then                    
                     stencil(4,ic0,ie1-1) = stencil(4,ic0,ie1-1)*factor
                  else if(extrapOrder.eq.2) then
                     stencil(3,ic0,ie1-1)=stencil(3,ic0,ie1-1)
     &                                   +stencil(4,ic0,ie1-1)/3.0
                     stencil(4,ic0,ie1-1)=8.0*stencil(4,ic0,ie1-1)/3.0
                  endif
               enddo
            endif
         endif
      else if (bdrytype.eq.1) then
         factor = neufactor
         if (direction.eq.0) then
            ie0 = pfirst0-side+1
            if(side .eq. 0) then
               do ic1 = pfirst1, plast1
                  stencil(1,ie0,ic1) = 0.0d0
               enddo
            else
               do ic1 = pfirst1, plast1
                  stencil(2,ie0-1,ic1) = 0.0d0
               enddo                  
            endif
         elseif (direction.eq.1) then
            ie1 = pfirst1-side+1
            if(side .eq. 0) then
               do ic0 = pfirst0, plast0
                  stencil(3,ic0,ie1) = 0.0d0
               enddo
            else
               do ic0 = pfirst0, plast0
                  stencil(4,ic0,ie1-1) = 0.0d0
               enddo
            endif
         endif
      endif
c     
      return
      end
c
c
      recursive subroutine adjnodediffusioncfoffdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  cfirst0,cfirst1,clast0,clast1,
     &  r,
     &  direction, side,
     &  interporder,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  cfirst0,cfirst1,clast0,clast1,
     &  direction, side
      integer r
      integer interporder
      double precision stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1
      integer offset
      double precision dr

c r is the refinement ratio, convert to double precision      
      dr = dfloat(r)
c     
c***********************************************************************
      offset=1-2*side
      if (direction.eq.0) then
         ie0 = cfirst0-side+1
         if(side.eq.0) then
            if(interporder .eq. 1) then
               do ic1 = cfirst1, clast1
                  stencil(1,ie0,ic1)=2.0*stencil(1,ie0,ic1)/3.0
               enddo
            else if(interporder .eq. 2) then
               do ic1 = cfirst1, clast1
                  stencil(2,ie0,ic1) = stencil(2,ie0,ic1)
     &                           -stencil(1,ie0,ic1)*(dr-1.0)/(dr+3.0)
                  stencil(1,ie0,ic1)=
     &                       8.0*stencil(1,ie0,ic1)/((dr+1.0)*(dr+3.0))
               enddo
            endif
         else 
            if(interporder .eq. 1) then
               do ic1 = cfirst1, clast1
                  stencil(2,ie0-1,ic1)=2.0*stencil(2,ie0-1,ic1)/3.0
               enddo
            else if(interporder .eq. 2) then
               do ic1 = cfirst1, clast1
                  stencil(1,ie0-1,ic1) = stencil(1,ie0-1,ic1)
     &                           -stencil(2,ie0-1,ic1)*(dr-1.0)/(dr+3.0)
                  stencil(2,ie0-1,ic1)=
     &                      8.0*stencil(2,ie0-1,ic1)/((dr+1.0)*(dr+3.0))
               enddo
            endif
         endif
      elseif (direction.eq.1) then
         ie1 = cfirst1-side+1
         if(side.eq.0) then
            if(interporder .eq. 1) then
               do ic0 = cfirst0, clast0
                  stencil(3,ic0,ie1)=2.0*stencil(3,ic0,ie1)/3.0
               enddo
            else if(interporder .eq. 2) then
               do ic0 = cfirst0, clast0
                  stencil(4,ic0,ie1) = stencil(4,ic0,ie1)
     &                 -stencil(3,ic0,ie1)*(dr-1.0)/(dr+3.0)
                  stencil(3,ic0,ie1)=
     &                    8.0*stencil(3,ic0,ie1)/((dr+1.0)*(dr+3.0))
               enddo
            endif
         else
            if(interporder .eq. 1) then
               do ic0 = cfirst0, clast0
                  stencil(4,ic0,ie1-1)=2.0*stencil(4,ic0,ie1-1)/3.0
               enddo
            else if(interporder .eq. 2) then
               do ic0 = cfirst0, clast0
                  stencil(3,ic0,ie1-1) = stencil(3,ic0,ie1-1)
     &                 -stencil(4,ic0,ie1-1)*(dr-1.0)/(dr+3.0)
                  stencil(4,ic0,ie1-1)=
     &                      8.0*stencil(4,ic0,ie1-1)/((dr+1.0)*(dr+3.0))
               enddo
            endif
         endif
      endif
      return
      end
c
c
      recursive subroutine readjnodediffusionoffdiag2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side
      double precision stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1
c
c***********************************************************************
c

      if (direction.eq.0) then
         ie0 = pfirst0-side+1
         if(side .eq. 0) then
            do ic1 = pfirst1, plast1
               stencil(1,ie0,ic1) = 0.0
            enddo
         else
            do ic1 = pfirst1, plast1
               stencil(2,ie0-1,ic1) = 0.0
            enddo
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1-side+1
         if(side .eq. 0) then
            do ic0 = pfirst0, plast0
               stencil(3,ic0,ie1) = 0.0
            enddo
         else
            do ic0 = pfirst0, plast0
               stencil(4,ic0,ie1-1) = 0.0
            enddo
         endif
      endif
c
      return
      end
c
c
      recursive subroutine adjnodediffusioncfbdryrhs2d(
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side,
     &  stencil,
     &  gcw,
     &  u, rhs)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ifirst1,ilast0,ilast1,
     &  pfirst0,pfirst1,plast0,plast1,
     &  direction, side
      double precision stencil(0:4,ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer gcw
      double precision
     &  u(ifirst0-gcw:ilast0+gcw,
     &          ifirst1-gcw:ilast1+gcw),
     &  rhs(ifirst0:ilast0,
     &          ifirst1:ilast1)
      integer ic0,ic1,ie0,ie1
c
c***********************************************************************
c

      if (direction.eq.0) then
         ie0 = pfirst0+1-(2*side)
         if(side.eq.0) then
            do ic1 = pfirst1, plast1
               rhs(ie0,ic1) = rhs(ie0,ic1) -
     &              stencil(1,ie0,ic1)*u(ie0-1,ic1)
            enddo
         else
            do ic1 = pfirst1, plast1
               rhs(ie0,ic1) = rhs(ie0,ic1) -
     &              stencil(2,ie0,ic1)*u(ie0+1,ic1)
            end do
         endif
      elseif (direction.eq.1) then
         ie1 = pfirst1+1-(2*side)
         if(side.eq.0) then
            do ic0 = pfirst0, plast0
               rhs(ic0,ie1) = rhs(ic0,ie1)-
     &              stencil(3,ic0,ie1)*u(ic0,ie1-1)
            enddo
         else
            do ic0 = pfirst0, plast0
               rhs(ic0,ie1) = rhs(ic0,ie1)-
     &              stencil(4,ic0,ie1)*u(ic0,ie1+1)
            enddo
         endif
      endif
      return
      end
