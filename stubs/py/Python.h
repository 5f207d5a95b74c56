/* The macros of the stable API that the headers of one Python version write without a reference, because its
 * singletons are immortal: the reference is part of what they mean. */
#if !defined( _HSA_PYTHON_H )
#define _HSA_PYTHON_H
#include_next <Python.h>
#undef Py_RETURN_NONE
#define Py_RETURN_NONE return Py_NewRef( Py_None )
#undef Py_RETURN_TRUE
#define Py_RETURN_TRUE return Py_NewRef( Py_True )
#undef Py_RETURN_FALSE
#define Py_RETURN_FALSE return Py_NewRef( Py_False )
#undef Py_RETURN_NOTIMPLEMENTED
#define Py_RETURN_NOTIMPLEMENTED return Py_NewRef( Py_NotImplemented )
#endif
