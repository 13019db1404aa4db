// Python zero-fills the memory of the objects it creates, which hides members that a constructor forgets. Once poisoned,
// the instances of a Boost.Python class are constructed over garbage, as C++ users' stack and heap objects are.
#include <boost/python.hpp>
#include <cstring>
#include <valgrind/memcheck.h>
namespace bp = boost::python;

static PyObject* garbage_alloc(PyTypeObject* type, Py_ssize_t n)
{
  PyObject* o = PyType_GenericAlloc(type, n);
  if (o != nullptr)
  {
    size_t off = offsetof(bp::objects::instance<>, storage), size = type->tp_basicsize + n * type->tp_itemsize;
    if (size > off)
    {
      std::memset((char*)o + off, 0x5A, size - off);
      (void)VALGRIND_MAKE_MEM_UNDEFINED((char*)o + off, size - off);
    }
  }
  return o;
}

static bool poison(bp::object cls)
{
  if (!PyType_Check(cls.ptr()))
  {
    return false;
  }
  PyTypeObject* t = (PyTypeObject*)cls.ptr();
  if (!PyType_IsSubtype(t, (PyTypeObject*)bp::objects::class_type().get()) || t->tp_alloc != PyType_GenericAlloc)
  {
    return false;
  }
  t->tp_alloc = garbage_alloc;
  return true;
}

// Number of errors that valgrind reported so far, -1 when it is not running
static int errors()
{
  return RUNNING_ON_VALGRIND ? (int)VALGRIND_COUNT_ERRORS : -1;
}

BOOST_PYTHON_MODULE(vfx_alloc)
{
  bp::def("errors", errors);
  bp::def("poison", poison);
}
