! Calls made through the SimintFortran module on behalf of mon_fort.cpp.
module fdriver
  use iso_c_binding
  use SimintFortran
  implicit none
contains

  subroutine f_sizes(s) bind(C)
    integer(C_INT), intent(out) :: s(2)
    type(c_simint_shell) :: g
    type(c_simint_multi_shellpair) :: p
    s(1) = int(c_sizeof(g), C_INT)
    s(2) = int(c_sizeof(p), C_INT)
  end subroutine

  subroutine f_init() bind(C)
    call simint_init()
  end subroutine
  subroutine f_finalize() bind(C)
    call simint_finalize()
  end subroutine

  subroutine f_work(der, am, s) bind(C)
    integer(C_INT), intent(in), value :: der, am
    integer(C_LONG_LONG), intent(out) :: s(2)
    s(1) = simint_eri_worksize(int(der), int(am))
    s(2) = simint_eri_workmem(int(der), int(am))
  end subroutine

  ! all fields of a shell, as Fortran sees them
  subroutine rd_shell(G, i4, r8, nr)
    type(c_simint_shell), intent(in) :: G
    integer(C_LONG_LONG), intent(out) :: i4(*)
    real(C_DOUBLE), intent(out) :: r8(*)
    integer(C_INT), intent(out) :: nr
    real(C_DOUBLE), pointer :: a(:)
    integer :: n
    n = G%nprim
    i4(1) = G%am
    i4(2) = G%nprim
    i4(3) = G%memsize
    r8(1) = G%x; r8(2) = G%y; r8(3) = G%z
    nr = 3
    call c_f_pointer(G%alpha, a, [n])
    r8(nr+1:nr+n) = a; nr = nr+n
    call c_f_pointer(G%coef, a, [n])
    r8(nr+1:nr+n) = a; nr = nr+n
  end subroutine

  subroutine f_read_shell(G, i4, r8, nr) bind(C)
    type(c_simint_shell), intent(in) :: G
    integer(C_LONG_LONG), intent(out) :: i4(*)
    real(C_DOUBLE), intent(out) :: r8(*)
    integer(C_INT), intent(out) :: nr
    call rd_shell(G, i4, r8, nr)
  end subroutine

  subroutine app(p, n, r8, nr)
    type(C_PTR), intent(in) :: p
    integer, intent(in) :: n
    real(C_DOUBLE), intent(inout) :: r8(*)
    integer(C_INT), intent(inout) :: nr
    real(C_DOUBLE), pointer :: a(:)
    call c_f_pointer(p, a, [n])
    r8(nr+1:nr+n) = a
    nr = nr+n
  end subroutine

  ! all fields of a shell pair object; ntot: entries including padding
  subroutine f_read_pair(P, ntot, deriv, i4, ni, r8, nr) bind(C)
    type(c_simint_multi_shellpair), intent(in) :: P
    integer(C_INT), intent(in), value :: ntot, deriv
    integer(C_LONG_LONG), intent(out) :: i4(*)
    integer(C_INT), intent(out) :: ni, nr
    real(C_DOUBLE), intent(out) :: r8(*)
    integer(C_INT), pointer :: np(:)
    integer :: i, n12
    n12 = P%nshell12
    i4(1) = P%am1; i4(2) = P%am2; i4(3) = P%nprim; i4(4) = P%nshell12; i4(5) = P%nshell12_clip
    i4(6) = P%memsize
    ni = 6
    call c_f_pointer(P%nprim12, np, [n12])
    do i = 1, n12
      ni = ni+1
      i4(ni) = np(i)
    end do
    nr = 0
    call app(P%AB_x, n12, r8, nr); call app(P%AB_y, n12, r8, nr); call app(P%AB_z, n12, r8, nr)
    call app(P%x, ntot, r8, nr); call app(P%y, ntot, r8, nr); call app(P%z, ntot, r8, nr)
    call app(P%PA_x, ntot, r8, nr); call app(P%PA_y, ntot, r8, nr); call app(P%PA_z, ntot, r8, nr)
    call app(P%PB_x, ntot, r8, nr); call app(P%PB_y, ntot, r8, nr); call app(P%PB_z, ntot, r8, nr)
    call app(P%alpha, ntot, r8, nr)
#if SIMINT_OSTEI_MAXDER > 0
    if(deriv > 0) then
      call app(P%alpha2, ntot, r8, nr); call app(P%beta2, ntot, r8, nr)
    end if
#endif
    call app(P%prefac, ntot, r8, nr)
    if(c_associated(P%screen)) call app(P%screen, ntot, r8, nr)
    nr = nr+1
    r8(nr) = P%screen_max
  end subroutine

  ! n shells from flat data into an array; how: 0 create, 1 create over an
  ! existing one, 2 allocate and fill, 3 copy of another, then normalise
  subroutine mk(n, am, np, xyz, alpha, coef, how, G)
    integer(C_INT), intent(in) :: n, am, np(*), how
    real(C_DOUBLE), intent(in) :: xyz(3,*), alpha(*), coef(*)
    type(c_simint_shell), intent(inout), target :: G(n)
    type(c_simint_shell), target :: tmp
    double precision :: ta(3), tc(3)
    real(C_DOUBLE), pointer :: a(:), c(:)
    integer :: i, o, k
    ta = [1.5d0, 0.5d0, 0.25d0]; tc = [0.1d0, 0.2d0, 0.3d0]
    if(mod(how, 2) == 0) then
      call simint_initialize_shells(int(n), G)
    else
      do i = 1, n
        call simint_initialize_shell(G(i))
      end do
    end if
    o = 0
    do i = 1, n
      if(np(i) == 0) then
        call simint_create_zero_shell(G(i))
        cycle
      end if
      if(how == 1) call simint_create_shell(3, 1, 9.0d0, 8.0d0, 7.0d0, ta, tc, G(i))
      if(how <= 1) then
        call simint_create_shell(int(np(i)), int(am), xyz(1,i), xyz(2,i), xyz(3,i), alpha(o+1:o+np(i)), coef(o+1:o+np(i)), G(i))
      else if(how == 2) then
        call simint_allocate_shell(int(np(i)), G(i))
        G(i)%am = am
        G(i)%nprim = np(i)
        G(i)%x = xyz(1,i); G(i)%y = xyz(2,i); G(i)%z = xyz(3,i)
        call c_f_pointer(G(i)%alpha, a, [int(np(i))])
        call c_f_pointer(G(i)%coef, c, [int(np(i))])
        do k = 1, np(i)
          a(k) = alpha(o+k); c(k) = coef(o+k)
        end do
      else
        call simint_initialize_shell(tmp)
        call simint_create_shell(int(np(i)), int(am), xyz(1,i), xyz(2,i), xyz(3,i), alpha(o+1:o+np(i)), coef(o+1:o+np(i)), tmp)
        if(mod(i, 2) == 0) call simint_create_shell(3, 1, 9.0d0, 8.0d0, 7.0d0, ta, tc, G(i))
        call simint_copy_shell(tmp, G(i))
        call simint_free_shell(tmp)
      end if
      o = o + np(i)
    end do
  end subroutine

  ! build n1/n2 shells and a pair object, keep them; list: all combinations,
  ! otherwise consecutive pairs of one array
  subroutine f_build(n1, am1, np1, xyz1, al1, co1, n2, am2, np2, xyz2, al2, co2, how, norm, list, screen, A, B, P) bind(C)
    integer(C_INT), intent(in), value :: n1, am1, n2, am2, how, norm, list, screen
    integer(C_INT), intent(in) :: np1(*), np2(*)
    real(C_DOUBLE), intent(in) :: xyz1(3,*), al1(*), co1(*), xyz2(3,*), al2(*), co2(*)
    type(c_simint_shell), intent(inout) :: A(n1), B(n2)
    type(c_simint_multi_shellpair), intent(inout) :: P
    type(c_simint_shell) :: AB(2*n1)
    type(c_simint_multi_shellpair) :: PP(2)
    integer :: i
    call mk(n1, am1, np1, xyz1, al1, co1, how, A)
    call mk(n2, am2, np2, xyz2, al2, co2, how, B)
    if(norm == 1) then
      call simint_normalize_shells(int(n1), A)
      call simint_normalize_shells(int(n2), B)
    end if
    if(mod(how, 2) == 0) then
      call simint_initialize_multi_shellpair(P)
    else
      call simint_initialize_multi_shellpairs(2, PP)
      P = PP(2)
      call simint_free_multi_shellpairs(1, PP)
    end if
    if(list == 1) then
      call simint_create_multi_shellpair(int(n1), A, int(n2), B, P, int(screen))
    else
      do i = 1, n1
        AB(2*i-1) = A(i)
        AB(2*i) = B(i)
      end do
      call simint_create_multi_shellpair2(int(n1), AB, P, int(screen))
    end if
  end subroutine

  subroutine f_free(n1, A, n2, B, P) bind(C)
    integer(C_INT), intent(in), value :: n1, n2
    type(c_simint_shell), intent(inout) :: A(n1), B(n2)
    type(c_simint_multi_shellpair), intent(inout) :: P
    integer :: i
    call simint_free_shells(int(n1), A)
    do i = 1, n2
      call simint_free_shell(B(i))
    end do
    call simint_free_multi_shellpair(P)
  end subroutine

  function f_eri(deriv, P, Q, tol, work, out) bind(C) result(res)
    integer(C_INT), intent(in), value :: deriv
    type(c_simint_multi_shellpair), intent(in) :: P, Q
    real(C_DOUBLE), intent(in), value :: tol
    real(C_DOUBLE), intent(inout) :: work(*), out(*)
    integer(C_INT) :: res
    if(deriv == 0) then
      res = simint_compute_eri(P, Q, tol, work, out)
    else
      res = simint_compute_eri_deriv(deriv, P, Q, tol, work, out)
    end if
  end function

  ! with a workspace of the documented size that Fortran allocates, beginning
  ! at any element
  function f_eri_own(deriv, mx, first, P, Q, tol, out) bind(C) result(res)
    integer(C_INT), intent(in), value :: deriv, mx, first
    type(c_simint_multi_shellpair), intent(in) :: P, Q
    real(C_DOUBLE), intent(in), value :: tol
    real(C_DOUBLE), intent(inout) :: out(*)
    real(C_DOUBLE), allocatable :: work(:)
    integer(C_INT) :: res
    allocate(work(simint_eri_worksize(int(deriv), int(mx)) + first - 1))
    if(deriv == 0) then
      res = simint_compute_eri(P, Q, tol, work(first:), out)
    else
      res = simint_compute_eri_deriv(deriv, P, Q, tol, work(first:), out)
    end if
    deallocate(work)
  end function

  function f_oe(what, n, Z, x, y, zz, A, B, out) bind(C) result(res)
    integer(C_INT), intent(in), value :: what, n
    real(C_DOUBLE), intent(in) :: Z(n), x(n), y(n), zz(n)
    type(c_simint_shell), intent(in) :: A, B
    real(C_DOUBLE), intent(inout) :: out(*)
    integer(C_INT) :: res
    res = -99
    if(what == 0) res = simint_compute_overlap(A, B, out)
    if(what == 1) res = simint_compute_ke(A, B, out)
    if(what == 2) res = simint_compute_potential(int(n), Z, x, y, zz, A, B, out)
  end function

end module
