PROPS = {
 'M01': dict(units=[dict(file='array.cc')]),
 'M02': dict(units=[dict(file='multi_array.cc')]),
 'M03': dict(units=[dict(file='matrix_inv.cc')]),
 'M04': dict(units=[dict(file='matrix_ops.cc')]),
 'M05': dict(units=[dict(file='general.cc')]),
 'M06': dict(units=[dict(file='tuple.cc')]),
 'G01': dict(units=[dict(file='geo2.cc')]),
 'G02': dict(units=[dict(file='geo3.cc')]),
 'G03': dict(units=[dict(file='point.cc')]),
 'E01': dict(units=[dict(file='elem_shape.cc', tag='shape', defs=['-DSHAPE'])]),
 'E02': dict(units=[dict(file='elem_shape.cc', tag='partial')]),
 'E03': dict(units=[dict(file='elem_jac.cc')]),
 'E04': dict(units=[dict(file='elem_lag.cc')]),
 'E05': dict(units=[dict(file='elem_quad.cc')]),
 'U01': dict(units=[dict(file='fixed_vector.cc')]),
 'U02': dict(units=[dict(file='strref.cc')]),
 'U03': dict(units=[dict(file='strutil.cc'), dict(inc=['-I@CONTRACTS@/model'], file='strutil.cc', tag='streams', defs=['-DSTREAMS'])]),
 'U04': dict(units=[dict(file='tuples.cc')]),
 'U05': dict(units=[dict(file='zip.cc')]),
 'U07': dict(units=[dict(file='algo.cc')]),
}
PROPS['A01'] = dict(units=[dict(file='atomics.cc', tag='int', defs=['-DPART1']), dict(file='atomics.cc', tag='types', defs=['-DPART2'], libs=['-latomic']), dict(file='atomics.cc', tag='serial', defs=['-DPART3'], libs=['-latomic'])])
PROPS['A02'] = dict(units=[dict(file='atomics.cc', tag='orders', defs=['-DPART4'])])
PROPS['U06'] = dict(units=[dict(file='array_view.cc', tag='index', defs=['-DINDEX']), dict(file='array_view.cc', tag='bounds', defs=['-DBOUNDS']), dict(file='array_view.cc', tag='views', defs=['-DVIEWS'])])
_ST = dict(inc=['-I@CONTRACTS@/model'])
PROPS['D01'] = dict(units=[dict(_ST, file='dbc.cc', tag=t, defs=d) for t, d in [('on_throw', ['-DRISTRA_REQUIRE_ON', '-DRISTRA_DBC_THROW', '-DERRORS']), ('on_notify', ['-DRISTRA_REQUIRE_ON', '-DRISTRA_DBC_NOTIFY']), ('on_nothing', ['-DRISTRA_REQUIRE_ON']), ('off_throw', ['-DRISTRA_DBC_THROW']), ('off_nothing', [])]])
PROPS['L01'] = dict(units=[dict(inc=['-I@CONTRACTS@/model', '-I/usr/include/lua5.3'], native_inc=['-I/usr/include/lua5.3'], libs=['-llua5.3'], file='lua.cc')])
PROPS['I01'] = dict(units=[dict(inc=['-I@CONTRACTS@/model', '-I/usr/include/lua5.3'], native_inc=['-I/usr/include/lua5.3'], libs=['-llua5.3'], file='inputs.cc')])
PROPS['P01'] = dict(units=[dict(inc=['-I@CONTRACTS@/model', '-I/usr/include/python3.12'], native_inc=['-I/usr/include/python3.12'], libs=['-lpython3.12'], file='python.cc')])
