! Calls every procedure of the Fortran module with the arguments given from C.
module mc_ftn
  use engpar
  use iso_c_binding
  implicit none
  interface ! overwrites the registers, so that an argument passed the wrong way is not there by chance
    subroutine fv_clobber() bind(C, name='fv_clobber')
    end subroutine
  end interface
contains
  subroutine fv_initialize() bind(C, name='fv_initialize')
    call fv_clobber()
    call cengpar_initialize()
  end subroutine
  subroutine fv_finalize() bind(C, name='fv_finalize')
    call fv_clobber()
    call cengpar_finalize()
  end subroutine
  subroutine fv_setftncommunicator(comm) bind(C, name='fv_setftncommunicator')
    integer(c_int), value :: comm
    call fv_clobber()
    call cengpar_setftncommunicator(comm)
  end subroutine
  function fv_createEmptyGraph() result(g) bind(C, name='fv_createEmptyGraph')
    type(c_ptr) :: g
    call fv_clobber()
    g = cengpar_createEmptyGraph()
  end function
  function fv_createLocalSplitInput(g, s, l, o, f, tol, ranks, t) result(x) bind(C, name='fv_createLocalSplitInput')
    type(c_ptr), value :: g
    integer(c_int), value :: s, l, f
    logical(c_bool), value :: o
    real(c_double), value :: tol
    integer(c_int32_t), intent(in) :: ranks(f)
    integer(c_int32_t), value :: t
    type(c_ptr) :: x
    call fv_clobber()
    x = cengpar_createLocalSplitInput(g, s, l, o, f, tol, ranks, t)
  end function
  function fv_createGlobalSplitInput(g, s, l, o, tol, t) result(x) bind(C, name='fv_createGlobalSplitInput')
    type(c_ptr), value :: g
    integer(c_int), value :: s, l
    logical(c_bool), value :: o
    real(c_double), value :: tol
    integer(c_int32_t), value :: t
    type(c_ptr) :: x
    call fv_clobber()
    x = cengpar_createGlobalSplitInput(g, s, l, o, tol, t)
  end function
  function fv_createDiffusiveInput(g, sf) result(x) bind(C, name='fv_createDiffusiveInput')
    type(c_ptr), value :: g
    real(c_double), value :: sf
    type(c_ptr) :: x
    call fv_clobber()
    x = cengpar_createDiffusiveInput(g, sf)
  end function
  subroutine fv_setCutGrowthFactor(x, f) bind(C, name='fv_setCutGrowthFactor')
    type(c_ptr), value :: x
    real(c_double), value :: f
    call fv_clobber()
    call cengpar_setCutGrowthFactor(x, f)
  end subroutine
  subroutine fv_addPriority(x, t, tol) bind(C, name='fv_addPriority')
    type(c_ptr), value :: x
    integer(c_int32_t), value :: t
    real(c_double), value :: tol
    call fv_clobber()
    call cengpar_addPriority(x, t, tol)
  end subroutine
  subroutine fv_balanceGhosts(x, on) bind(C, name='fv_balanceGhosts')
    type(c_ptr), value :: x
    logical(c_bool), value :: on
    call fv_clobber()
    call cengpar_balanceGhosts(x, on)
  end subroutine
  subroutine fv_balance(x, v) bind(C, name='fv_balance')
    type(c_ptr), value :: x
    integer(c_int), value :: v
    call fv_clobber()
    call cengpar_balance(x, v)
  end subroutine
  subroutine fv_loadFromFile(g, name) bind(C, name='fv_loadFromFile')
    type(c_ptr), value :: g
    character(c_char), intent(in) :: name(*)
    call fv_clobber()
    call cengpar_loadFromFile(g, name)
  end subroutine
  subroutine fv_saveToFile(g, name) bind(C, name='fv_saveToFile')
    type(c_ptr), value :: g
    character(c_char), intent(in) :: name(*)
    call fv_clobber()
    call cengpar_saveToFile(g, name)
  end subroutine
  subroutine fv_evaluatePartition(g) bind(C, name='fv_evaluatePartition')
    type(c_ptr), value :: g
    call fv_clobber()
    call cengpar_evaluatePartition(g)
  end subroutine
  subroutine fv_split(x, name) bind(C, name='fv_split')
    type(c_ptr), value :: x
    character(c_char), intent(in) :: name(*)
    call fv_clobber()
    call cengpar_split(x, name)
  end subroutine
  subroutine fv_destroyGraph(g) bind(C, name='fv_destroyGraph')
    type(c_ptr), value :: g
    call fv_clobber()
    call cengpar_destroyGraph(g)
  end subroutine
  subroutine fv_constructVerts(g, h, v, w, n) bind(C, name='fv_constructVerts')
    type(c_ptr), value :: g
    logical(c_bool), value :: h
    integer(c_int), value :: n
    integer(c_int64_t), intent(in) :: v(n)
    real(c_double), intent(in) :: w(n)
    call fv_clobber()
    call cengpar_constructVerts(g, h, v, w, n)
  end subroutine
  function fv_constructEdges(g, e, d, w, p, ne, np) result(t) bind(C, name='fv_constructEdges')
    type(c_ptr), value :: g
    integer(c_int), value :: ne, np
    integer(c_int64_t), intent(in) :: e(ne), p(np)
    integer(c_int32_t), intent(in) :: d(ne)
    real(c_double), intent(in) :: w(ne)
    integer(c_int32_t) :: t
    call fv_clobber()
    t = cengpar_constructEdges(g, e, d, w, p, ne, np)
  end function
  subroutine fv_constructGhosts(g, v, o, n) bind(C, name='fv_constructGhosts')
    type(c_ptr), value :: g
    integer(c_int), value :: n
    integer(c_int64_t), intent(in) :: v(n)
    integer(c_int32_t), intent(in) :: o(n)
    call fv_clobber()
    call cengpar_constructGhosts(g, v, o, n)
  end subroutine
  subroutine fv_checkValidity(g) bind(C, name='fv_checkValidity')
    type(c_ptr), value :: g
    call fv_clobber()
    call cengpar_checkValidity(g)
  end subroutine
  subroutine fv_getPartition(g, v, p, n) bind(C, name='fv_getPartition')
    type(c_ptr), value :: g
    integer(c_int), value :: n
    integer(c_int64_t), intent(inout) :: v(n)
    integer(c_int32_t), intent(inout) :: p(n)
    call fv_clobber()
    call cengpar_getPartition(g, v, p, n)
  end subroutine
end module
