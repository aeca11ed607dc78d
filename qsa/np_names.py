"""Public names of numpy 2.0.2 (generated once; only used to tell an unmodelled name from a missing one)."""
UFUNCS = {
    'abs': ('absolute', 1, 1),
    'absolute': ('absolute', 1, 1),
    'acos': ('arccos', 1, 1),
    'acosh': ('arccosh', 1, 1),
    'add': ('add', 2, 1),
    'arccos': ('arccos', 1, 1),
    'arccosh': ('arccosh', 1, 1),
    'arcsin': ('arcsin', 1, 1),
    'arcsinh': ('arcsinh', 1, 1),
    'arctan': ('arctan', 1, 1),
    'arctan2': ('arctan2', 2, 1),
    'arctanh': ('arctanh', 1, 1),
    'asin': ('arcsin', 1, 1),
    'asinh': ('arcsinh', 1, 1),
    'atan': ('arctan', 1, 1),
    'atan2': ('arctan2', 2, 1),
    'atanh': ('arctanh', 1, 1),
    'bitwise_and': ('bitwise_and', 2, 1),
    'bitwise_count': ('bitwise_count', 1, 1),
    'bitwise_invert': ('invert', 1, 1),
    'bitwise_left_shift': ('left_shift', 2, 1),
    'bitwise_not': ('invert', 1, 1),
    'bitwise_or': ('bitwise_or', 2, 1),
    'bitwise_right_shift': ('right_shift', 2, 1),
    'bitwise_xor': ('bitwise_xor', 2, 1),
    'cbrt': ('cbrt', 1, 1),
    'ceil': ('ceil', 1, 1),
    'conj': ('conjugate', 1, 1),
    'conjugate': ('conjugate', 1, 1),
    'copysign': ('copysign', 2, 1),
    'cos': ('cos', 1, 1),
    'cosh': ('cosh', 1, 1),
    'deg2rad': ('deg2rad', 1, 1),
    'degrees': ('degrees', 1, 1),
    'divide': ('divide', 2, 1),
    'divmod': ('divmod', 2, 2),
    'equal': ('equal', 2, 1),
    'exp': ('exp', 1, 1),
    'exp2': ('exp2', 1, 1),
    'expm1': ('expm1', 1, 1),
    'fabs': ('fabs', 1, 1),
    'float_power': ('float_power', 2, 1),
    'floor': ('floor', 1, 1),
    'floor_divide': ('floor_divide', 2, 1),
    'fmax': ('fmax', 2, 1),
    'fmin': ('fmin', 2, 1),
    'fmod': ('fmod', 2, 1),
    'frexp': ('frexp', 1, 2),
    'gcd': ('gcd', 2, 1),
    'greater': ('greater', 2, 1),
    'greater_equal': ('greater_equal', 2, 1),
    'heaviside': ('heaviside', 2, 1),
    'hypot': ('hypot', 2, 1),
    'invert': ('invert', 1, 1),
    'isfinite': ('isfinite', 1, 1),
    'isinf': ('isinf', 1, 1),
    'isnan': ('isnan', 1, 1),
    'isnat': ('isnat', 1, 1),
    'lcm': ('lcm', 2, 1),
    'ldexp': ('ldexp', 2, 1),
    'left_shift': ('left_shift', 2, 1),
    'less': ('less', 2, 1),
    'less_equal': ('less_equal', 2, 1),
    'log': ('log', 1, 1),
    'log10': ('log10', 1, 1),
    'log1p': ('log1p', 1, 1),
    'log2': ('log2', 1, 1),
    'logaddexp': ('logaddexp', 2, 1),
    'logaddexp2': ('logaddexp2', 2, 1),
    'logical_and': ('logical_and', 2, 1),
    'logical_not': ('logical_not', 1, 1),
    'logical_or': ('logical_or', 2, 1),
    'logical_xor': ('logical_xor', 2, 1),
    'matmul': ('matmul', 2, 1),
    'maximum': ('maximum', 2, 1),
    'minimum': ('minimum', 2, 1),
    'mod': ('remainder', 2, 1),
    'modf': ('modf', 1, 2),
    'multiply': ('multiply', 2, 1),
    'negative': ('negative', 1, 1),
    'nextafter': ('nextafter', 2, 1),
    'not_equal': ('not_equal', 2, 1),
    'positive': ('positive', 1, 1),
    'pow': ('power', 2, 1),
    'power': ('power', 2, 1),
    'rad2deg': ('rad2deg', 1, 1),
    'radians': ('radians', 1, 1),
    'reciprocal': ('reciprocal', 1, 1),
    'remainder': ('remainder', 2, 1),
    'right_shift': ('right_shift', 2, 1),
    'rint': ('rint', 1, 1),
    'sign': ('sign', 1, 1),
    'signbit': ('signbit', 1, 1),
    'sin': ('sin', 1, 1),
    'sinh': ('sinh', 1, 1),
    'spacing': ('spacing', 1, 1),
    'sqrt': ('sqrt', 1, 1),
    'square': ('square', 1, 1),
    'subtract': ('subtract', 2, 1),
    'tan': ('tan', 1, 1),
    'tanh': ('tanh', 1, 1),
    'true_divide': ('divide', 2, 1),
    'trunc': ('trunc', 1, 1),
    'vecdot': ('vecdot', 2, 1),
}
FUNCTIONS = frozenset("""
__dir__ __getattr__ _get_promotion_state _no_nep50_warning _pyinstaller_hooks_dir _set_promotion_state all
allclose amax amin angle any append apply_along_axis apply_over_axes arange argmax argmin argpartition argsort
argwhere around array array2string array_equal array_equiv array_repr array_split array_str asanyarray asarray
asarray_chkfinite ascontiguousarray asfortranarray asmatrix astype atleast_1d atleast_2d atleast_3d average
bartlett base_repr binary_repr bincount blackman block bmat broadcast_arrays broadcast_shapes broadcast_to
busday_count busday_offset can_cast choose clip column_stack common_type compress concat concatenate convolve
copy copyto corrcoef correlate count_nonzero cov cross cumprod cumsum datetime_as_string datetime_data delete
diag diag_indices diag_indices_from diagflat diagonal diff digitize dot dsplit dstack ediff1d einsum
einsum_path empty empty_like expand_dims extract eye fill_diagonal fix flatnonzero flip fliplr flipud
format_float_positional format_float_scientific from_dlpack frombuffer fromfile fromfunction fromiter
frompyfunc fromregex fromstring full full_like genfromtxt geomspace get_include get_printoptions getbufsize
geterr geterrcall gradient hamming hanning histogram histogram2d histogram_bin_edges histogramdd hsplit hstack
i0 identity imag in1d indices info inner insert interp intersect1d is_busday isclose iscomplex iscomplexobj
isdtype isfortran isin isneginf isposinf isreal isrealobj isscalar issubdtype iterable ix_ kaiser kron lexsort
linspace load loadtxt logspace mask_indices matrix_transpose max may_share_memory mean median meshgrid min
min_scalar_type mintypecode moveaxis nan_to_num nanargmax nanargmin nancumprod nancumsum nanmax nanmean
nanmedian nanmin nanpercentile nanprod nanquantile nanstd nansum nanvar ndim nested_iters nonzero ones
ones_like outer packbits pad partition percentile permute_dims piecewise place poly polyadd polyder polydiv
polyfit polyint polymul polysub polyval printoptions prod promote_types ptp put put_along_axis putmask
quantile ravel ravel_multi_index real real_if_close repeat require reshape resize result_type roll rollaxis
roots rot90 round row_stack save savetxt savez savez_compressed searchsorted select set_printoptions
setbufsize setdiff1d seterr seterrcall setxor1d shape shares_memory show_config show_runtime sinc size sort
sort_complex split squeeze stack std sum swapaxes take take_along_axis tensordot test tile trace transpose
trapezoid trapz tri tril tril_indices tril_indices_from trim_zeros triu triu_indices triu_indices_from
typename union1d unique unique_all unique_counts unique_inverse unique_values unpackbits unravel_index unwrap
vander var vdot vsplit vstack where zeros zeros_like
""".split())
CLASSES = frozenset("""
_CopyMode bool bool_ broadcast busdaycalendar byte bytes_ cdouble character clongdouble complex128 complex256
complex64 complexfloating csingle datetime64 double dtype errstate finfo flatiter flexible float128 float16
float32 float64 floating generic half iinfo inexact int16 int32 int64 int8 int_ intc integer intp long
longdouble longlong matrix memmap ndarray ndenumerate ndindex nditer number object_ poly1d recarray record
short signedinteger single str_ timedelta64 ubyte ufunc uint uint16 uint32 uint64 uint8 uintc uintp ulong
ulonglong unsignedinteger ushort vectorize void
""".split())
MODULES = frozenset("""
__config__ _core _distributor_init _expired_attrs_2_0 _globals _mat _pytesttester _typing _utils char core
ctypeslib dtypes emath exceptions f2py fft lib linalg ma polynomial random rec strings testing typing
""".split())
OTHER = frozenset("""
False_ ScalarType True_ _NoValue __NUMPY_SETUP__ __all__ __array_api_version__ __builtins__ __cached__ __doc__
__expired_attributes__ __file__ __former_attrs__ __future_scalars__ __loader__ __name__ __numpy_submodules__
__package__ __path__ __spec__ __version__ _int_extended_msg _msg _specific_msg _type_info c_ e euler_gamma
index_exp inf little_endian mgrid nan newaxis ogrid pi r_ s_ sctypeDict typecodes
""".split())
NDARRAY = frozenset("""
T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__ __array_interface__
__array_namespace__ __array_priority__ __array_struct__ __array_ufunc__ __array_wrap__ __bool__ __buffer__
__class__ __class_getitem__ __complex__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__ __dir__
__divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__
__getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__
__imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ __invert__ __ior__ __ipow__
__irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__
__mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__
__repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__
__rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__
__subclasshook__ __truediv__ __xor__ all any argmax argmin argpartition argsort astype base byteswap choose
clip compress conj conjugate copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags
flat flatten getfield imag item itemset itemsize mT max mean min nbytes ndim newbyteorder nonzero partition
prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std
strides sum swapaxes take to_device tobytes tofile tolist tostring trace transpose var view
""".split())
GENERIC = frozenset("""
T __abs__ __add__ __and__ __array__ __array_interface__ __array_priority__ __array_struct__ __array_wrap__
__bool__ __buffer__ __ceil__ __class__ __class_getitem__ __copy__ __deepcopy__ __delattr__ __dir__ __divmod__
__doc__ __eq__ __float__ __floor__ __floordiv__ __format__ __ge__ __getattribute__ __getformat__ __getitem__
__getnewargs__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __int__ __invert__ __le__ __lshift__
__lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__
__reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__
__rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__
__truediv__ __trunc__ __xor__ all any argmax argmin argsort as_integer_ratio astype base byteswap choose clip
compress conj conjugate copy cumprod cumsum data diagonal dtype dump dumps fill flags flat flatten fromhex
getfield hex imag is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero prod ptp put
ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
swapaxes take tobytes tofile tolist tostring trace transpose var view
""".split())
