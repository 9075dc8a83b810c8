C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c  File:        nodediffusionstencilcoeffs1d.m4
c  Package:     SAMRSolvers
c  Copyright:   (c) 1997-2001 The Regents of the University of California
c  Release:     $Name$
c  Revision:    $Revision: 2727 $
c  Modified:    $Date: 2006-06-22 15:52:36 -0600 (Thu, 22 Jun 2006) $
c  Description: F77 routines that compute matrix entries for 1d node centered diffusion operator
c



c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 1d arrays in FORTRAN routines.
c
c
c
      recursive subroutine nodediffusionoffdiag1d(
     &  ifirst0,ilast0,
     &  bilo0,bihi0,
     &  dx,
     &  beta,
     &  b0,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  bilo0,bihi0
      double precision
     &  dx(0:1-1),beta,
     &  b0(bilo0:bihi0+1)

      double precision stencil(0:2, ifirst0:ilast0)

      integer ie0
      double precision d0
      integer e,w
c
c***********************************************************************
c
c using face data for b0,b1 will slow down the creation
c of the stencils significantly. we should move to using
c side data for b0,b1
      
      w=0
      e=1
      
      d0 = -beta / (dx(0)*dx(0))
      
      do ie0 = ifirst0, ilast0
         stencil(1, ie0) = d0*b0(ie0  ) 
         stencil(2, ie0) = d0*b0(ie0+1) 
      enddo
      
      return
      end
c     
      recursive subroutine nodepoissonoffdiag1d(
     &  ifirst0,ilast0,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0
      double precision dx(0:1-1),beta

      double precision stencil(0:2, ifirst0:ilast0)

      integer ie0
      double precision d0
      integer e,w
c
c***********************************************************************
c
      w=0
      e=1

      d0 = -beta / (dx(0)*dx(0))
      
      do ie0 = ifirst0, ilast0
         stencil(1, ie0) = d0
         stencil(2, ie0) = d0
      enddo
      
      return
      end
c
c
      recursive subroutine nodediffusionv1diag1d(
     &  ifirst0,ilast0,
     &  ailo0,aihi0,
     &  alpha,
     &  a,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  ailo0,aihi0
      double precision
     &  alpha,
     &  a(ailo0:aihi0)
      double precision stencil(0:2, ifirst0:ilast0)
      integer ic0
      integer e,w,p
c
c***********************************************************************
c
      w=0
      e=1
      p=2

      do ic0 = ifirst0, ilast0
         stencil(0, ic0) = -( stencil(1, ic0) 
     &        + stencil(2, ic0))
     &        + alpha * a(ic0)
      enddo
c
      return
      end
c
c     
      recursive subroutine nodediffusionv2diag1d(
     &  ifirst0,ilast0,
     &  alpha,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision alpha
      double precision stencil(0:2, ifirst0:ilast0)
      integer ic0
      integer e,w,p
c
c***********************************************************************
c
      w=0
      e=1
      p=2

      do ic0 = ifirst0, ilast0
         stencil(0, ic0) = -(stencil(1, ic0)+stencil(2, ic0))+alpha
      enddo
c
      return
      end
c
c     
      recursive subroutine nodepoissondiag1d(
     &  ifirst0,ilast0,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer ifirst0,ilast0
      double precision stencil(0:2,ifirst0:ilast0)
      integer ic0
      integer e,w,p
c     
c***********************************************************************
c
      w=0
      e=1
      p=2

      do ic0 = ifirst0, ilast0
         stencil(0, ic0) = -( stencil(1, ic0) + stencil(2, ic0) )
      enddo
c
      return
      end
c
c
      recursive subroutine adjnodediffusiondiag1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  beta,
     &  b0,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side, bdrytype
      integer extrapOrder
      double precision dx(0:1-1), beta
      double precision b0(ifirst0:ilast0+1)
      double precision stencil(0:2,ifirst0:ilast0)
      integer ie0,edge
      
      double precision factor
      double precision b, h
      integer p
c
c***********************************************************************
c
      p=2

      if (bdrytype.eq.4) then
         ie0 = pfirst0-2*side+1
         edge= pfirst0-side+1
         b=0.25
         h=dx(0)
         if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
            else if (extrapOrder.eq.2) then
               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
               stencil(0,ie0)=stencil(0,ie0)-factor
            endif
         else
            if(extrapOrder.eq.1) then
            else if (extrapOrder.eq.2) then
               factor=beta*b0(edge)/h*(3.0*h+16.0*b0(edge))
               stencil(0,ie0)=stencil(0,ie0)-factor
            endif
         endif
      else
         if (bdrytype.eq.1) then
            ie0 = pfirst0-side+1
         elseif (bdrytype.eq.0) then
         endif         
      endif

      return
      end

      recursive subroutine adjnodepoissondiag1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side, bdrytype
      integer extrapOrder
      double precision 
     &  dx(0:1-1), beta
      double precision stencil(0:2,ifirst0:ilast0)
      integer ie0,edge
      
      double precision factor
      double precision b, h
      integer p
c
c***********************************************************************
c
      p=2

      if (bdrytype.eq.4) then
         ie0 = pfirst0-2*side+1
         edge= pfirst0-side+1
         b=0.25
         h=dx(0)
         if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
            else if (extrapOrder.eq.2) then
               factor=beta/h*(3.0*h+16.0)
               stencil(0,ie0)=stencil(0,ie0)-factor
            endif
         else
            if(extrapOrder.eq.1) then
            else if (extrapOrder.eq.2) then
               factor=beta/h*(3.0*h+16.0)
               stencil(0,ie0)=stencil(0,ie0)-factor
            endif
         endif
      else
         if (bdrytype.eq.1) then
            ie0 = pfirst0-side+1
         elseif (bdrytype.eq.0) then
         endif         
      endif

      return
      end

      recursive subroutine adjnodediffusioncfdiag1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  r,
     &  side,
     &  interporder,
     &  dx,
     &  beta,
     &  b0,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  interporder
      integer r
      double precision 
     &  dx(0:1-1), beta
      double precision b0(ifirst0:ilast0+1)
      double precision stencil(0:2,ifirst0:ilast0)
      integer ie0,edge
      
      double precision factor
      double precision h

      double precision dr,dr1

      integer p

c r is the refinement ratio, convert to double precision      
      p=2
      dr = dfloat(r)
      dr1=2.0*(dr-1.0)/(dr+1.0)
c
c***********************************************************************
c
      ie0 = pfirst0-2*side+1
      edge= pfirst0-side+1
      h=dx(0)
      if (interporder .eq. 1) then
         factor=beta*b0(edge)/(3.0*(h**2))
         stencil(0,ie0)=stencil(0,ie0)-factor
      else if (interporder .eq. 2) then
         factor=dr1*beta*b0(edge)/(h**2)
         stencil(0,ie0)=stencil(0,ie0)-factor
      endif
      
      return
      end
c
      recursive subroutine adjnodepoissoncfdiag1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  r,
     &  side,
     &  interporder,
     &  dx,
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  interporder
      integer r
      double precision dx(0:1-1), beta
      double precision stencil(0:2,ifirst0:ilast0)
      integer ie0,edge
      
      double precision factor
      double precision h
      double precision dr,dr1
      integer p
c r is the refinement ratio, convert to double precision      
      p=2
      dr = dfloat(r)
      dr1=2.0*(dr-1.0)/(dr+1.0)
c
c***********************************************************************
c
      ie0 = pfirst0-2*side+1
      edge= pfirst0-side+1
      h=dx(0)
      if (interporder .eq. 1) then
         factor=beta/(3.0*(h**2))
         stencil(0,ie0)=stencil(0,ie0)-factor
      else if (interporder .eq. 2) then
         factor=dr1*beta/(h**2)
         stencil(0,ie0)=stencil(0,ie0)-factor
      endif
      
      return
      end
c
c
      recursive subroutine adjnodediffusionoffdiag1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  dirfactor, neufactor, 
     &  beta,
     &  b0,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side, bdrytype,
     &  extrapOrder
      double precision dirfactor, neufactor
      double precision dx(0:1-1), beta
      double precision b0(ifirst0:ilast0+1)
      double precision stencil(0:2, ifirst0:ilast0)
      integer ie0
      double precision factor
      double precision h
      integer e,w
c
c***********************************************************************
c
      w=0
      e=1

      if (bdrytype.eq.4) then
         ie0 = pfirst0-side+1
         h=dx(0)
         if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
               factor=(2.0*h)/(4.0*b0(ie0)+h)
               stencil(1,ie0)=factor*stencil(1,ie0)
            else if(extrapOrder.eq.2) then
               factor=beta*b0(ie0)/(h*(3.0*h+16.0*b0(ie0)))
               stencil(1,ie0)=-9.0*factor
               stencil(2,ie0)=stencil(2,ie0)-factor 
            endif                 
         else
            if(extrapOrder.eq.1) then
               factor=2.0*h/(4.0*b0(ie0)+h)
               stencil(2,ie0-1)=factor*stencil(2,ie0-1)
            else if(extrapOrder.eq.2) then
               factor=beta*b0(ie0)/(h*(3.0*h+16.0*b0(ie0)))
               stencil(2,ie0-1)=-9.0*factor
               stencil(1,ie0-1)=stencil(1,ie0-1)-factor
            endif
         endif
      else if (bdrytype.eq.0) then
         factor=dirfactor
         ie0 = pfirst0-side+1
         if( side. eq. 0) then
            if(extrapOrder.eq.1) then                    
               stencil(1,ie0) = stencil(1,ie0)*factor
            else if(extrapOrder.eq.2) then
               stencil(2,ie0) = stencil(2,ie0)
     &              +stencil(1,ie0)/3.0
               stencil(1,ie0) = 8.0*stencil(1,ie0)/3.0
            endif
         else
            if(extrapOrder.eq.1) then                    
               stencil(2,ie0-1) = stencil(2,ie0-1)*factor
            else if(extrapOrder.eq.2) then
               stencil(1,ie0-1)=stencil(1,ie0-1)
     &              +stencil(2,ie0-1)/3.0
               stencil(2,ie0-1)= 8.0*stencil(2,ie0-1)/3.0
            endif
         endif
      else if (bdrytype.eq.1) then
         factor = neufactor
         ie0 = pfirst0-side+1
         if(side .eq. 0) then
            stencil(1,ie0) = 0.0d0
         else
            stencil(2,ie0-1) = 0.0d0
         endif
      endif      
c     
      return
      end
c
      recursive subroutine adjnodepoissonoffdiag1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  bdrytype,
     &  extrapOrder,
     &  dx,
     &  dirfactor, neufactor, 
     &  beta,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side, bdrytype,
     &  extrapOrder
      double precision dirfactor, neufactor
      double precision dx(0:1-1), beta
      double precision stencil(0:2, ifirst0:ilast0)
      integer ie0
      double precision factor
      double precision h
      integer e,w
c
c***********************************************************************
c
c for now we will only do the dir=0 robin boundary conditions
c we will also assume homogenous boundary conditions for now
      w=0
      e=1

      if (bdrytype.eq.4) then
         ie0 = pfirst0-side+1
         h=dx(0)
         if (side .eq. 0 ) then
            if(extrapOrder.eq.1) then
               factor=(2.0*h)/(4.0+h)
               stencil(1,ie0)=factor*stencil(1,ie0)
            else if(extrapOrder.eq.2) then
               factor=beta/(h*(3.0*h+16.0))
               stencil(1,ie0)=-9.0*factor
               stencil(2,ie0)=stencil(2,ie0)-factor 
            endif                 
         else
            if(extrapOrder.eq.1) then
               factor=2.0*h/(4.0+h)
               stencil(2,ie0-1)=factor*stencil(2,ie0-1)
            else if(extrapOrder.eq.2) then
               factor=beta/(h*(3.0*h+16.0))
               stencil(2,ie0-1)=-9.0*factor
               stencil(1,ie0-1)=stencil(1,ie0-1)-factor
            endif
         endif
      else if (bdrytype.eq.0) then
         factor=dirfactor
         ie0 = pfirst0-side+1
         if( side. eq. 0) then
            if(extrapOrder.eq.1) then                    
               stencil(1,ie0) = stencil(1,ie0)*factor
            else if(extrapOrder.eq.2) then
               stencil(2,ie0) = stencil(2,ie0)+stencil(1,ie0)/3.0
               stencil(1,ie0) = 8.0*stencil(1,ie0)/3.0
            endif
         else
            if(extrapOrder.eq.1) then                    
               stencil(2,ie0-1) = stencil(2,ie0-1)*factor
            else if(extrapOrder.eq.2) then
               stencil(1,ie0-1)=stencil(1,ie0-1)+stencil(2,ie0-1)/3.0
               stencil(2,ie0-1)= 8.0*stencil(2,ie0-1)/3.0
            endif
         endif
      else if (bdrytype.eq.1) then
         factor = neufactor
         ie0 = pfirst0-side+1
         if(side .eq. 0) then
            stencil(1,ie0) = 0.0d0
         else
            stencil(2,ie0-1) = 0.0d0
         endif
      endif
c     
      return
      end
c
c
      recursive subroutine adjnodediffusioncfoffdiag1d(
     &  ifirst0,ilast0,
     &  cfirst0,clast0,
     &  r,
     &  side,
     &  interporder,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  cfirst0,clast0,
     &  side
      integer r
      integer interporder
      double precision stencil(0:2,ifirst0:ilast0)
      integer ie0
      integer offset
      double precision dr
      integer e,w

c r is the refinement ratio, convert to double precision      
      w=0
      e=1

      dr = dfloat(r)
c     
c***********************************************************************
      offset=1-2*side
      ie0 = cfirst0-side+1
      if(side.eq.0) then
         if(interporder .eq. 1) then
            stencil(1,ie0)=2.0*stencil(1,ie0)/3.0
         else if(interporder .eq. 2) then
            stencil(2,ie0) = stencil(2,ie0)
     &                      -stencil(1,ie0)*(dr-1.0)/(dr+3.0)
            stencil(1,ie0)= 8.0*stencil(1,ie0)/((dr+1.0)*(dr+3.0))
         endif
      else 
         if(interporder .eq. 1) then
            stencil(2,ie0-1)=2.0*stencil(2,ie0-1)/3.0
         else if(interporder .eq. 2) then
            stencil(1,ie0-1) = stencil(1,ie0-1)
     &                        -stencil(2,ie0-1)*(dr-1.0)/(dr+3.0)
            stencil(2,ie0-1)= 8.0*stencil(2,ie0-1)/((dr+1.0)*(dr+3.0))
         endif
      endif

      return
      end
c
c
      recursive subroutine readjnodediffusionoffdiag1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  stencil)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side
      double precision stencil(0:2,ifirst0:ilast0)
      integer ie0
      integer e,w
c
c***********************************************************************
c
      w=0
      e=1

      ie0 = pfirst0-side+1
      if(side .eq. 0) then
         stencil(1,ie0) = 0.0
      else
         stencil(2,ie0-1) = 0.0
      endif
c
      return
      end
c
c
      recursive subroutine adjnodediffusioncfbdryrhs1d(
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side,
     &  stencil,
     &  gcw,
     &  u, rhs)
c***********************************************************************
      implicit none
c
      integer
     &  ifirst0,ilast0,
     &  pfirst0,plast0,
     &  side
      double precision stencil(0:2,ifirst0:ilast0)
      integer gcw
      double precision
     &  u(ifirst0-gcw:ilast0+gcw),
     &  rhs(ifirst0:ilast0)
      integer ie0
      integer e,w
c
c***********************************************************************
c
      w=0
      e=1

      ie0 = pfirst0+1-(2*side)
      if(side.eq.0) then
         rhs(ie0) = rhs(ie0)-stencil(1,ie0)*u(ie0-1)
      else
         rhs(ie0) = rhs(ie0)-stencil(2,ie0)*u(ie0+1)
      endif

      return
      end
