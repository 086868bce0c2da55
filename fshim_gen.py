#!/usr/bin/env python3
# generates fshim.F90 text pieces per precision
P=[('single_real','real(C_FLOAT)',1),('double_real','real(C_DOUBLE)',2),('single_complex','complex(C_FLOAT_COMPLEX)',3),('double_complex','complex(C_DOUBLE_COMPLEX)',4)]
o=[]
w=o.append
w('''! Shims that let the simulator drive the library through its Fortran interface.
! Each takes the arguments of the C function it replaces and calls the Fortran
! procedure the way a Fortran program does: 1-based indices, column-major arrays,
! allocatable results, optional arguments left out when they have their default.
module fshim
  use bml
  use iso_c_binding
  implicit none
  interface
    function sim_fvar(n) bind(C, name="sim_fvar")   ! a choice between n equivalent ways of making the call
      import :: C_INT
      integer(C_INT), value :: n
      integer(C_INT) :: sim_fvar
    end function
    function c_malloc(n) bind(C, name="malloc")
      import :: C_PTR, C_SIZE_T
      integer(C_SIZE_T), value :: n
      type(C_PTR) :: c_malloc
    end function
  end interface
contains
  function tname(t) result(s)
    integer(C_INT), intent(in) :: t
    character(len=20) :: s
    select case (t)
    case (1); s = BML_MATRIX_DENSE
    case (2); s = BML_MATRIX_ELLPACK
    case (3); s = BML_MATRIX_ELLBLOCK
    case (4); s = BML_MATRIX_CSR
    case default; s = "nonsense"
    end select
  end function
  function ename(p) result(s)
    integer(C_INT), intent(in) :: p
    character(len=20) :: s
    s = BML_ELEMENT_REAL
    if (p > 2) s = BML_ELEMENT_COMPLEX
  end function
  function ekind(p) result(k)
    integer(C_INT), intent(in) :: p
    integer :: k
    k = C_FLOAT
    if (mod(p, 2) == 0) k = C_DOUBLE
  end function
  function dname(d) result(s)
    integer(C_INT), intent(in) :: d
    character(len=20) :: s
    select case (d)
    case (0); s = BML_DMODE_SEQUENTIAL
    case (1); s = BML_DMODE_DISTRIBUTED
    case (2); s = BML_DMODE_GRAPH_DISTRIBUTED
    case default; s = "nonsense"
    end select
  end function
  ! the handle a result is put into: sometimes one that already holds a matrix, which must then be released
  subroutine handle(m)
    type(bml_matrix_t), intent(inout) :: m
    m%ptr = C_NULL_PTR
    if (sim_fvar(4) == 0) call bml_identity_matrix(BML_MATRIX_CSR, BML_ELEMENT_REAL, C_DOUBLE, 3, 3, m)
  end subroutine
  function cstr(p) result(s)
    character(kind=C_CHAR), intent(in) :: p(*)
    character(len=64) :: s
    integer :: i
    s = ' '
    do i = 1, 64
      if (p(i) == C_NULL_CHAR) exit
      s(i:i) = p(i)
    end do
  end function
''')
def ptrs(*n): return '\n'.join('    type(bml_matrix_t) :: %s_'%x for x in n)
def sub(name,args,decl,body,res=None):
    if res: w('  function %s(%s) bind(C, name="%s") result(res)'%(name,args,name)); w('    %s :: res'%res)
    else: w('  subroutine %s(%s) bind(C, name="%s")'%(name,args,name))
    for d in decl:
        w('    '+d)
    w(body)
    w('  end %s'%('function' if res else 'subroutine'))
M=lambda *n:['type(C_PTR), value :: '+', '.join(n),'type(bml_matrix_t) :: '+', '.join(x+'_' for x in n)]
B=lambda *n:'\n'.join('    %s_%%ptr = %s'%(x,x) for x in n)
I=lambda s:'integer(C_INT), value :: '+s
D=lambda s:'real(C_DOUBLE), value :: '+s
# constructors
for f in ['zero_matrix','identity_matrix','random_matrix','banded_matrix','noinit_matrix']:
    sub('fs_'+f,'t,p,n,m,d',[I('t,p,n,m,d'),'type(bml_matrix_t) :: a_'],'''    call handle(a_)
    if (d == 0 .and. sim_fvar(2) == 0) then
      call bml_%s(trim(tname(t)), trim(ename(p)), ekind(p), n, m, a_)
    else
      call bml_%s(trim(tname(t)), ename(p), ekind(p), n, m, a_, dname(d))
    end if
    res = a_%%ptr'''%(f,f),'type(C_PTR)')
sub('fs_block_matrix','t,p,nb,mb,m,bs,d',[I('t,p,nb,mb,m,d'),'integer(C_INT), intent(in) :: bs(nb)','type(bml_matrix_t) :: a_','integer, allocatable :: b(:)'],'''    call handle(a_)
    b = bs
    if (d == 0 .and. sim_fvar(2) == 0) then
      call bml_block_matrix(trim(tname(t)), trim(ename(p)), ekind(p), nb, mb, m, b, a_)
    else
      call bml_block_matrix(trim(tname(t)), trim(ename(p)), ekind(p), nb, mb, m, b, a_, dname(d))
    end if
    res = a_%ptr''','type(C_PTR)')
# calls that have to end in an error
sub('fs_invalid','k,t,p,n',[I('k,t,p,n'),'type(bml_matrix_t) :: a_','real(C_FLOAT), allocatable :: s4(:, :)','real(C_DOUBLE), allocatable :: s8(:, :)','complex(C_FLOAT_COMPLEX), allocatable :: c4(:, :)','complex(C_DOUBLE_COMPLEX), allocatable :: c8(:, :)'],'''    call handle(a_)
    select case (k)
    case (0); call bml_zero_matrix(trim(tname(t)), 'quaternion', ekind(p), n, n, a_)
    case (1); call bml_zero_matrix(trim(tname(t)), trim(ename(p)), 3, n, n, a_)
    case (2); call bml_identity_matrix(trim(tname(t)), trim(ename(p)), ekind(p), n, n, a_, 'nonsense')
    case (3); call bml_random_matrix('nonsense', trim(ename(p)), ekind(p), n, n, a_)
    case (4)
      select case (p)
      case (1); allocate(s4(n, n)); s4 = 0; call bml_import_from_dense(trim(tname(t)), s4, a_)
      case (2); allocate(s8(n, n)); s8 = 0; call bml_import_from_dense(trim(tname(t)), s8, a_)
      case (3); allocate(c4(n, n)); c4 = 0; call bml_import_from_dense(trim(tname(t)), c4, a_)
      case (4); allocate(c8(n, n)); c8 = 0; call bml_import_from_dense(trim(tname(t)), c8, a_)
      end select
    case (6); call bml_zero_matrix(BML_MATRIX_DENSE, trim(ename(p)), ekind(p), n, n, a_, BML_DMODE_GRAPH_DISTRIBUTED)
    case (5); call bml_error("nowhere", n, "reported")
    end select''')
# import
w('''  function fs_import_from_dense(t, p, order, n, m, x, thr, d) bind(C, name="fs_import_from_dense") result(res)
    integer(C_INT), value :: t, p, order, n, m, d
    type(C_PTR), value :: x
    real(C_DOUBLE), value :: thr
    type(C_PTR) :: res
    type(bml_matrix_t) :: a_
    call handle(a_)
    select case (p)''')
for n,ty,k in P: w('    case (%d); call import_%s(t, order, n, m, x, thr, d, a_)'%(k,n))
w('''    end select
    res = a_%ptr
  end function''')
for n,ty,k in P:
    w('''  subroutine import_%s(t, order, n, m, x, thr, d, a_)
    integer(C_INT), intent(in) :: t, order, n, m, d
    type(C_PTR), intent(in) :: x
    real(C_DOUBLE), intent(in) :: thr
    type(bml_matrix_t), intent(inout) :: a_
    %s, pointer :: src(:, :)
    %s, allocatable, target :: q(:, :)
    integer :: v
    call c_f_pointer(x, src, [n, n])
    v = sim_fvar(6)
    if (v == 0) then          ! a section of a larger array
      allocate(q(-1:n+1, 2:n+3))
      q = 7
      if (order == 0) then
        q(1:n, 3:n+2) = transpose(src)
      else
        q(1:n, 3:n+2) = src
      end if
      call bml_import_from_dense(trim(tname(t)), q(1:n, 3:n+2), a_, thr, m, dname(d))
    else if (v == 1 .and. order == 1) then   ! every other column
      allocate(q(n, 2*n))
      q = -3
      q(:, 1:2*n:2) = src
      call bml_import_from_dense(trim(tname(t)), q(:, 1:2*n:2), a_, thr, m, dname(d))
    else
      if (order == 0) then
        q = transpose(src)
      else
        q = src
      end if
      if (d == 0 .and. thr == 0 .and. v == 2) then
        call bml_import_from_dense(trim(tname(t)), q, a_, m=m)
      else if (d == 0 .and. v == 3 .and. t == 1 .and. m == n) then
        call bml_import_from_dense(trim(tname(t)), q, a_, threshold=thr)
      else
        call bml_import_from_dense(tname(t), q, a_, thr, m, trim(dname(d)))
      end if
    end if
  end subroutine'''%(n,ty,ty))
# export, rows, diagonals
w('''  function fs_export_to_dense(a, order) bind(C, name="fs_export_to_dense") result(res)
    type(C_PTR), value :: a
    integer(C_INT), value :: order
    type(C_PTR) :: res
    type(bml_matrix_t) :: a_
    a_%ptr = a
    res = C_NULL_PTR
    select case (bml_get_precision(a_))''')
for n,ty,k in P: w('    case (%d); call export_%s(a_, order, res)'%(k,n))
w('''    end select
  end function''')
for n,ty,k in P:
    w('''  subroutine export_%s(a_, order, res)
    type(bml_matrix_t), intent(in) :: a_
    integer(C_INT), intent(in) :: order
    type(C_PTR), intent(out) :: res
    %s, allocatable :: q(:, :)
    %s, pointer :: o(:, :)
    integer :: n
    res = C_NULL_PTR
    n = bml_get_n(a_)
    if (sim_fvar(3) == 0) then
      allocate(q(n + 1, 2))
      q = 5
      if (sim_fvar(2) == 0) deallocate(q)
    end if
    call bml_export_to_dense(a_, q)
    if (.not. allocated(q)) return
    if (size(q, 1) /= n .or. size(q, 2) /= n) return
    res = c_malloc(int(n, C_SIZE_T) * n * (storage_size(q) / 8))
    call c_f_pointer(res, o, [n, n])
    if (order == 0) then
      o = transpose(q)
    else
      o = q
    end if
  end subroutine'''%(n,ty,ty))
for what,arg in [('row','i'),('diagonal','')]:
    w('''  function fs_get_%s(a%s) bind(C, name="fs_get_%s") result(res)
    type(C_PTR), value :: a%s
    type(C_PTR) :: res
    type(bml_matrix_t) :: a_
    a_%%ptr = a
    res = C_NULL_PTR
    select case (bml_get_precision(a_))'''%(what,', i' if arg else '',what,'\n    integer(C_INT), value :: i' if arg else ''))
    for n,ty,k in P: w('    case (%d); call %s_%s(a_%s, res)'%(k,what,n,', i' if arg else ''))
    w('''    end select
  end function''')
    for n,ty,k in P:
        w('''  subroutine %s_%s(a_%s, res)
    type(bml_matrix_t), intent(in) :: a_%s
    type(C_PTR), intent(out) :: res
    %s, allocatable :: q(:)
    %s, pointer :: o(:)
    integer :: n
    res = C_NULL_PTR
    n = bml_get_n(a_)
    if (sim_fvar(2) == 0) then
      allocate(q(n))
      q = 9
    end if
    call bml_get_%s(a_, %sq)
    if (.not. allocated(q)) return
    if (size(q) /= n) return
    res = c_malloc(int(n, C_SIZE_T) * (storage_size(q) / 8))
    call c_f_pointer(res, o, [n])
    o = q
  end subroutine'''%(what,n,', i' if arg else '','\n    integer(C_INT), intent(in) :: i' if arg else '',ty,ty,what,'i + 1, ' if arg else ''))
# setters
def typed(name,args,decl,call):
    w('  subroutine fs_%s(a, %s) bind(C, name="fs_%s")'%(name,args,name))
    w('    type(C_PTR), value :: a'); 
    for d in decl: w('    '+d)
    w('    type(bml_matrix_t) :: a_')
    for n,ty,k in P: w('    %s, pointer :: e%d%s'%(ty,k,'(:)' if name in('set_row','set_diagonal') else ''))
    w('    a_%ptr = a\n    select case (bml_get_precision(a_))')
    for n,ty,k in P:
        w('    case (%d)'%k)
        w(('      call c_f_pointer(x, e%d, [bml_get_n(a_)])' if name in('set_row','set_diagonal') else '      call c_f_pointer(x, e%d)')%k)
        if name in('set_row','set_diagonal'):
            w('      if (thr == 0 .and. sim_fvar(2) == 0) then\n        '+call('e%d'%k,'')+'\n      else\n        '+call('e%d'%k,', thr')+'\n      end if')
        else: w('      '+call('e%d'%k,''))
    w('    end select\n  end subroutine')
typed('set_element','i, j, x',['integer(C_INT), value :: i, j','type(C_PTR), value :: x'],lambda e,t:'call bml_set_element(a_, i + 1, j + 1, %s)'%e)
typed('set_element_new','i, j, x',['integer(C_INT), value :: i, j','type(C_PTR), value :: x'],lambda e,t:'call bml_set_element_new(a_, i + 1, j + 1, %s)'%e)
typed('set_row','i, x, thr',['integer(C_INT), value :: i','type(C_PTR), value :: x','real(C_DOUBLE), value :: thr'],lambda e,t:'call bml_set_row(a_, i + 1, %s%s)'%(e,t))
typed('set_diagonal','x, thr',['type(C_PTR), value :: x','real(C_DOUBLE), value :: thr'],lambda e,t:'call bml_set_diagonal(a_, %s%s)'%(e,t))
for n,ty,k in P:
    sub('fs_get_element_'+n,'a, i, j',M('a')+[I('i, j')],B('a')+'\n    call bml_get_element(res, a_, i + 1, j + 1)',ty)
# scale
w('''  subroutine fs_scale_inplace(x, a) bind(C, name="fs_scale_inplace")
    type(C_PTR), value :: x, a
    type(bml_matrix_t) :: a_''')
for n,ty,k in P: w('    %s, pointer :: e%d'%(ty,k))
w('    a_%ptr = a\n    select case (bml_get_precision(a_))')
for n,ty,k in P: w('    case (%d)\n      call c_f_pointer(x, e%d)\n      call bml_scale(e%d, a_)'%(k,k,k))
w('    end select\n  end subroutine')
w('''  subroutine fs_scale(x, a, b) bind(C, name="fs_scale")
    type(C_PTR), value :: x, a, b
    type(bml_matrix_t) :: a_, b_''')
for n,ty,k in P: w('    %s, pointer :: e%d'%(ty,k))
w('    a_%ptr = a; b_%ptr = b\n    select case (bml_get_precision(a_))')
for n,ty,k in P: w('    case (%d)\n      call c_f_pointer(x, e%d)\n      call bml_scale(e%d, a_, b_)'%(k,k,k))
w('    end select\n  end subroutine')
# algebra
def opt(call,full,cond='thr == 0'):
    return '    if (%s .and. sim_fvar(2) == 0) then\n      %s\n    else\n      %s\n    end if'%(cond,call,full)
sub('fs_add','a,b,alpha,beta,thr',M('a','b')+[D('alpha,beta,thr')],B('a','b')+'\n    if (sim_fvar(3) == 0) then\n      if (thr == 0) then\n        call bml_add_deprecated(alpha, a_, beta, b_)\n      else\n        call bml_add_deprecated(alpha, a_, beta, b_, thr)\n      end if\n      return\n    end if\n'+opt('call bml_add(a_, b_, alpha, beta)','call bml_add(a_, b_, alpha, beta, thr)'))
sub('fs_add_norm','a,b,alpha,beta,thr',M('a','b')+[D('alpha,beta,thr')],B('a','b')+'\n'+opt('res = bml_add_norm(a_, b_, alpha, beta)','res = bml_add_norm(a_, b_, alpha, beta, thr)'),'real(C_DOUBLE)')
sub('fs_add_identity','a,beta,thr',M('a')+[D('beta,thr')],B('a')+'\n    call bml_add_identity(a_, beta, thr)')
sub('fs_scale_add_identity','a,alpha,beta,thr',M('a')+[D('alpha,beta,thr')],B('a')+'\n    call bml_scale_add_identity(a_, alpha, beta, thr)')
sub('fs_multiply','a,b,c,alpha,beta,thr',M('a','b','c')+[D('alpha,beta,thr')],B('a','b','c')+'''
    if (alpha == 1 .and. beta == 0 .and. thr == 0 .and. sim_fvar(2) == 0) then
      call bml_multiply(a_, b_, c_)
    else if (alpha == 1 .and. beta == 0 .and. sim_fvar(2) == 0) then
      call bml_multiply(a_, b_, c_, threshold=thr)
    else if (thr == 0 .and. sim_fvar(2) == 0) then
      call bml_multiply(a_, b_, c_, alpha, beta)
    else
      call bml_multiply(a_, b_, c_, alpha, beta, thr)
    end if''')
sub('fs_element_multiply_AB','a,b,c,thr',M('a','b','c')+[D('thr')],B('a','b','c')+'\n'+opt('call bml_element_multiply_AB(a_, b_, c_)','call bml_element_multiply_AB(a_, b_, c_, thr)'))
R2='''
    if (.not. allocated(q)) return
    if (size(q) /= 2) return
    res = c_malloc(16_C_SIZE_T)
    call c_f_pointer(res, o, [2])
    o = q'''
Q=['double precision, allocatable :: q(:)','real(C_DOUBLE), pointer :: o(:)']
QI='\n    res = C_NULL_PTR\n    if (sim_fvar(2) == 0) allocate(q(2))'
sub('fs_multiply_x2','a,b,thr',M('a','b')+[D('thr')]+Q,B('a','b')+QI+'\n'+opt('call bml_multiply_x2(a_, b_, trace=q)','call bml_multiply_x2(a_, b_, thr, q)')+R2,'type(C_PTR)')
sub('fs_gershgorin','a',M('a')+Q,B('a')+QI+'\n    call bml_gershgorin(a_, q)'+R2,'type(C_PTR)')
sub('fs_gershgorin_partial','a,nrows',M('a')+[I('nrows')]+Q,B('a')+QI+'\n    call bml_gershgorin_partial(a_, q, nrows)'+R2,'type(C_PTR)')
for f in ['sum_squares','fnorm','trace']: sub('fs_'+f,'a',M('a'),B('a')+'\n    res = bml_%s(a_)'%f,'real(C_DOUBLE)')
for f in ['fnorm2','trace_mult']: sub('fs_'+f,'a,b',M('a','b'),B('a','b')+'\n    res = bml_%s(a_, b_)'%f,'real(C_DOUBLE)')
sub('fs_sum_squares_submatrix','a,n',M('a')+[I('n')],B('a')+'\n    res = bml_sum_squares_submatrix(a_, n)','real(C_DOUBLE)')
sub('fs_sum_squares2','a,b,alpha,beta,thr',M('a','b')+[D('alpha,beta,thr')],B('a','b')+'\n    res = bml_sum_squares2(a_, b_, alpha, beta, thr)','real(C_DOUBLE)')
sub('fs_sum_AB','a,b,alpha,thr',M('a','b')+[D('alpha,thr')],B('a','b')+'\n    res = bml_sum_AB(a_, b_, alpha, thr)','real(C_DOUBLE)')
sub('fs_normalize','a,lo,hi',M('a')+[D('lo,hi')],B('a')+'\n    call bml_normalize(a_, lo, hi)')
sub('fs_threshold','a,thr',M('a')+[D('thr')],B('a')+'\n    call bml_threshold(a_, thr)')
sub('fs_clear','a',M('a'),B('a')+'\n    call bml_clear(a_)')
sub('fs_allocated','a',M('a'),B('a')+'\n    res = 0\n    if (bml_allocated(a_)) res = 1','integer(C_INT)')
sub('fs_deallocate','a',['type(C_PTR) :: a','type(bml_matrix_t) :: a_'],'    a_%ptr = a\n    call bml_deallocate(a_)\n    a = a_%ptr')
sub('fs_transpose_new','a',M('a')+['type(bml_matrix_t) :: t_'],B('a')+'\n    call handle(t_)\n    call bml_transpose(a_, t_)\n    res = t_%ptr','type(C_PTR)')
sub('fs_inverse','a',M('a')+['type(bml_matrix_t) :: t_'],B('a')+'\n    call handle(t_)\n    call bml_inverse(a_, t_)\n    res = t_%ptr','type(C_PTR)')
sub('fs_copy_new','a',M('a')+['type(bml_matrix_t) :: t_'],B('a')+'\n    call handle(t_)\n    call bml_copy_new(a_, t_)\n    res = t_%ptr','type(C_PTR)')
sub('fs_copy','a,b',M('a','b'),B('a','b')+'\n    call bml_copy(a_, b_)')
sub('fs_transpose_triangle','a,t',M('a')+['character(C_CHAR), value :: t'],B('a')+'\n    call bml_transpose_triangle(a_, t)')
sub('fs_adjungate_triangle','a,t',M('a')+['character(C_CHAR), intent(in) :: t(*)'],B('a')+'\n    call bml_adjungate_triangle(a_, t(1))')
sub('fs_reorder','a,perm',M('a')+['integer(C_INT), intent(in) :: perm(*)'],B('a')+'\n    call bml_reorder(a_, perm)')
for f in ['save_domain','restore_domain','allGatherVParallel']: sub('fs_'+f,'a',M('a'),B('a')+'\n    call bml_%s(a_)'%f)
sub('fs_update_domain','a,lo,hi,nn',M('a')+['integer(C_INT), intent(in) :: lo(*), hi(*), nn(*)'],B('a')+'\n    call bml_update_domain(a_, lo, hi, nn)')
sub('fs_diagonalize','a,ev,v',M('a','v')+['real(C_DOUBLE) :: ev(*)'],B('a','v')+'\n    call bml_diagonalize(a_, ev, v_)')
for f,c in [('get_N','get_n'),('get_M','get_m'),('get_precision','get_precision'),('get_bandwidth','get_bandwidth')]:
    sub('fs_'+f,'a',M('a'),B('a')+'\n    res = bml_%s(a_)'%c,'integer(C_INT)')
sub('fs_get_row_bandwidth','a,i',M('a')+[I('i')],B('a')+'\n    res = bml_get_row_bandwidth(a_, i + 1)','integer(C_INT)')
sub('fs_get_sparsity','a,thr',M('a')+[D('thr')],B('a')+'\n    res = bml_get_sparsity(a_, thr)','real(C_DOUBLE)')
for f in ['get_type','get_deep_type']:
    sub('fs_'+f,'a',M('a')+['character(len=20) :: s'],B('a')+'''
    s = bml_%s(a_)
    select case (s)
    case (BML_MATRIX_DENSE); res = 1
    case (BML_MATRIX_ELLPACK); res = 2
    case (BML_MATRIX_ELLBLOCK); res = 3
    case (BML_MATRIX_CSR); res = 4
    case ("distributed2d"); res = 5
    case default; res = -1
    end select'''%f,'integer(C_INT)')
sub('fs_element_info','a',M('a')+['character(len=20) :: s'],B('a')+'''
    s = bml_get_element_type(a_)
    res = -1
    if (s == BML_ELEMENT_REAL) res = 0
    if (s == BML_ELEMENT_COMPLEX) res = 2
    if (bml_get_element_precision(a_) == C_FLOAT) res = res + 1
    if (bml_get_element_precision(a_) == C_DOUBLE) res = res + 2''','integer(C_INT)')
sub('fs_get_distribution_mode','a',M('a')+['character(len=20) :: s'],B('a')+'''
    s = bml_get_distribution_mode(a_)
    select case (s)
    case (BML_DMODE_SEQUENTIAL); res = 0
    case (BML_DMODE_DISTRIBUTED); res = 1
    case (BML_DMODE_GRAPH_DISTRIBUTED); res = 2
    case default; res = -1
    end select''','integer(C_INT)')
sub('fs_getNRanks','',[],'    res = bml_getNRanks()','integer(C_INT)')
sub('fs_getMyRank','',[],'    res = bml_getMyRank()','integer(C_INT)')
sub('fs_init','comm',[I('comm')],'    call bml_initF(comm)')
sub('fs_shutdown','',[],'    call bml_shutdownF()')
ia=lambda s:'integer(C_INT) :: '+s
sub('fs_matrix2submatrix_index','a,b,nl,ns,ch,vs,dj',M('a','b')+[I('ns,dj'),ia('nl(*), ch(*), vs(*)')],B('a','b')+'\n    call bml_matrix2submatrix_index(b_, nl, ns, ch, vs, dj /= 0, a_)')
sub('fs_matrix2submatrix_index_graph','b,nl,ns,ch,vs,dj',M('b')+[I('ns,dj'),ia('nl(*), ch(*), vs(*)')],B('b')+'\n    call bml_matrix2submatrix_index(b_, nl, ns, ch, vs, dj /= 0)')
sub('fs_matrix2submatrix','a,b,ch,ls',M('a','b')+[I('ls'),ia('ch(*)')],B('a','b')+'\n    call bml_matrix2submatrix(a_, b_, ch, ls)')
sub('fs_submatrix2matrix','a,b,ch,ls,lls,thr',M('a','b')+[I('ls,lls'),D('thr'),ia('ch(*)')],B('a','b')+'\n'+opt('call bml_submatrix2matrix(a_, b_, ch, ls, lls)','call bml_submatrix2matrix(a_, b_, ch, ls, lls, thr)'))
sub('fs_adjacency','a,xadj,adjncy,base',M('a')+[I('base'),ia('xadj(*), adjncy(*)')],B('a')+'\n    call bml_adjacency(a_, xadj, adjncy, base)')
sub('fs_adjacency_group','a,hi,nn,xadj,adjncy,base',M('a')+[I('nn,base'),ia('hi(*), xadj(*), adjncy(*)')],B('a')+'\n    call bml_adjacency_group(a_, hi, nn, xadj, adjncy, base)')
sub('fs_group_matrix','a,hi,ng,thr',M('a')+[I('ng'),D('thr'),ia('hi(*)'),'type(bml_matrix_t) :: t_'],B('a')+'\n    call handle(t_)\n    call bml_group_matrix(a_, t_, hi, ng, thr)\n    res = t_%ptr','type(C_PTR)')
sub('fs_print_bml_matrix','a,il,iu,jl,ju',M('a')+[I('il,iu,jl,ju')],B('a')+'\n    call bml_print_matrix("matrix", a_, il, iu, jl, ju)')
sub('fs_read_bml_matrix','a,f',M('a')+['character(kind=C_CHAR), intent(in) :: f(*)'],B('a')+'\n    call bml_read_matrix(a_, cstr(f))')
sub('fs_write_bml_matrix','a,f',M('a')+['character(kind=C_CHAR), intent(in) :: f(*)'],B('a')+'\n    call bml_write_matrix(a_, cstr(f))')
w('end module fshim')
import sys
open(sys.argv[1],'w').write('\n'.join(o)+'\n')
