// The project's scripting is written against Python 2; the few names that changed are supplied here, for Python 3.
#pragma once
#include_next <Python.h>
static inline PyObject* Py_InitModule( const char* name, PyMethodDef* methods )
{
  PyModuleDef* def = new PyModuleDef{ PyModuleDef_HEAD_INIT, name, nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr };
  PyObject* m = PyModule_Create( def );
  if( m ) { PyDict_SetItemString( PyImport_GetModuleDict(), name, m ); Py_DECREF( m ); }
  return m;
}
#undef Py_SetProgramName
#define Py_SetProgramName( x ) ( (void) 0 )
