C Copyright 2005, The Regents of the University 
C of California. This software was produced under
C a U.S. Government contract (W-7405-ENG-36) 
C by Los Alamos National Laboratory, which is
C operated by the University of California for the
C U.S. Department of Energy. The U.S.
C Government is licensed to use, reproduce, and
C distribute this software. Permission is granted
C to the public to copy and use this software
C without charge, provided that this Notice and
C any statement of authorship are reproduced on
C all copies. Neither the Government nor the
C University makes any warranty, express or
C implied, or assumes any liability or
C responsibility for the use of this software.
C

c
c This file is part of the SAMRAI distribution.  For full copyright
c information, see COPYRIGHT and LICENSE.
c
c Copyright:     (c) 1997-2020 Lawrence Livermore National Security, LLC
c Description:   m4 include file for dimensioning 1d arrays in FORTRAN routines.
c








      recursive subroutine cellsetcorrectionbc1d(
     & lo0, hi0, 
     & dx,
     & dgcw,
     & d0,
     & ugcw,
     & u,
     & bdrySegLo, bdrySegHi,
     & extrapOrder,
     & face,
     & bdryType,
     & alpha,
     & beta  )

c  Set homogeneous boundary conditions.
c  Will do linear extrapolation

      implicit none

      integer lo0
      integer hi0

      integer dgcw
      integer ugcw

      integer extrapOrder
      integer face
      integer bdryType

      integer bdrySegHi(0:1-1)
      integer bdrySegLo(0:1-1)

      double precision dx(0:1-1)

      double precision d0(lo0-dgcw:hi0+1+dgcw)
      double precision u(lo0-ugcw:hi0+ugcw)

      double precision alpha
      double precision beta

      integer ihi
      integer ilo

      double precision factor
      double precision b, h
      double precision zero
      double precision coeff(1:2)

      parameter      ( zero=0.0d0 )

      if (face .eq. 0) then
         ilo = bdrySegLo(0)+1
         h=dx(0)
         if ( bdryType .eq. 0 ) then
            if( extrapOrder .eq. 1) then
               u(ilo-1) = -u(ilo)
            else if ( extrapOrder .eq. 2) then
               u(ilo-1) = -2.0*u(ilo)+u(ilo+1)/3.0
            endif
         else if ( bdryType .eq. 1 ) then
            u(ilo-1) = u(ilo)
         else if ( bdryType .eq. 4 ) then
            if( extrapOrder .eq. 1) then
              factor=(2.0*alpha*d0(ilo)-h*beta)
	      factor=factor/(2.0*alpha*d0(ilo)+h*beta)
              u(ilo-1)=factor*u(ilo)
            else if ( extrapOrder .eq. 2) then
              b=d0(ilo)
              coeff(1)=8.0*alpha*b-6.0*beta*h
	      coeff(1)=coeff(1)/(8.0*alpha*b+3.0*beta*h)
              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
              u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
            endif
         end if
         
      else if (face .eq. 1) then
         
         ihi = bdrySegHi(0)-1
         h=dx(0)
         if ( bdryType .eq. 0 ) then
            if( extrapOrder .eq. 1) then
               u(ihi+1) = -u(ihi)
            else if ( extrapOrder .eq. 2) then
               u(ihi+1) = -2.0*u(ihi)+u(ihi-1)/3.0
            endif
         else if ( bdryType .eq. 1 ) then
            u(ihi+1) = u(ihi)
         else if ( bdryType .eq. 4 ) then
            if( extrapOrder .eq. 1) then
              factor=(2.0*alpha*d0(ihi+1)-h*beta)
	      factor=factor/(2.0*alpha*d0(ihi+1)+h*beta)
              u(ihi+1)=factor*u(ihi)
            else if ( extrapOrder .eq. 2) then
              b=d0(ihi+1)
              coeff(1)=(8.0*alpha*b-6.0*beta*h)/(8.0*alpha*b+3.0*beta*h)
              coeff(2)=h/(8.0*alpha*b+3.0*beta*h)
              u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
            endif
         end if
      end if

      return 
      end

      recursive subroutine cellsetpoissoncorrectionbc1d(
     & lo0, hi0,
     & dx,
     & ugcw,
     & u,
     & bdrySegLo, bdrySegHi,
     & extrapOrder,
     & face,
     & bdryType,
     & alpha,
     & beta )

c  Set homogeneous boundary conditions.
c  Will do linear extrapolation

      implicit none

      integer lo0

      integer hi0

      integer ugcw

      integer extrapOrder
      integer face
      integer bdryType

      integer bdrySegHi(0:1-1)
      integer bdrySegLo(0:1-1)

      double precision dx(0:1-1)

      double precision u(lo0-ugcw:hi0+ugcw)

      integer ihi
      integer ilo

      double precision factor
      double precision b, h
      double precision zero
      double precision coeff(1:2)

      double precision alpha
      double precision beta

      parameter      ( zero=0.0d0 )

      if (face .eq. 0) then
         ilo = bdrySegLo(0)+1
         h=dx(0)
         if ( bdryType .eq. 0 ) then
            if( extrapOrder .eq. 1) then
               u(ilo-1) = -u(ilo)
            else if ( extrapOrder .eq. 2) then
               u(ilo-1) = -2.0*u(ilo)+u(ilo+1)/3.0
            endif
         else if ( bdryType .eq. 1 ) then
            u(ilo-1) = u(ilo)
         else if ( bdryType .eq. 4 ) then
            if( extrapOrder .eq. 1) then
               factor=(4.0-h)/(4.0+h)
               u(ilo-1)=factor*u(ilo)
            else if ( extrapOrder .eq. 2) then
               b=1.0
               coeff(1)=(16.0*b-6.0*h)/(16.0*b+3.0*h)
               coeff(2)=h/(16.0*b+3.0*h)
               u(ilo-1)=coeff(1)*u(ilo)+coeff(2)*u(ilo+1)
            endif
         end if

      else if (face .eq. 1) then

         ihi = bdrySegHi(0)-1
         h=dx(0)
         if ( bdryType .eq. 0 ) then
            if( extrapOrder .eq. 1) then
               u(ihi+1) = -u(ihi)
            else if ( extrapOrder .eq. 2) then
               u(ihi+1) = -2.0*u(ihi)+u(ihi-1)/3.0
            endif
         else if ( bdryType .eq. 1 ) then
            u(ihi+1) = u(ihi)
         else if ( bdryType .eq. 4 ) then
            if( extrapOrder .eq. 1) then
               factor=(4.0-h)/(4.0+h)
               u(ihi+1)=factor*u(ihi)
            else if ( extrapOrder .eq. 2) then
               b=1.0
               coeff(1)=(16.0*b-6.0*h)/(3.0*h+16.0*b)
               coeff(2)=h/(3.0*h+16.0*b)
               u(ihi+1)=coeff(1)*u(ihi)+coeff(2)*u(ihi-1)
            endif
         end if
      end if

      return 
      end
