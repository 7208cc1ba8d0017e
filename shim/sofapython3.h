// Stand-in for the two headers of SofaPython3 that the SofaCaribou bindings use: the intrusive holder and the registry that turns scene objects into Python ones.
#pragma once
#include "minisofa.h"
#include <pybind11/pybind11.h>
#include <functional>
#include <map>
namespace sofapython3 {
template <class T> class py_shared_ptr : public sofa::core::sptr<T> { public: py_shared_ptr() = default; py_shared_ptr(T *p) : sofa::core::sptr<T>(p) {} py_shared_ptr(const sofa::core::sptr<T> &p) : sofa::core::sptr<T>(p) {} };
class PythonFactory {
public:
    using predicate = std::function<pybind11::object(sofa::core::objectmodel::Base *)>;
    static std::map<std::string, predicate> &registry() { static auto *m = new std::map<std::string, predicate>(); return *m; }
    template <class T> static void registerType(predicate p) { registry()[sofa::core::objectmodel::shim_type_name<T>()] = p; }
    // as SofaPython3 does: what was registered for the class of the object, else the object as a BaseObject (which Python sees as its most derived bound class)
    template <class T> static pybind11::object toPython(T *o) { auto i = registry().find(sofa::core::objectmodel::shim_type_name<T>()); if (i != registry().end()) return i->second(o); return pybind11::cast(static_cast<sofa::core::objectmodel::BaseObject *>(o)); }
    template <class T> static bool registered() { return registry().count(sofa::core::objectmodel::shim_type_name<T>()); }
};
}
PYBIND11_DECLARE_HOLDER_TYPE(T, sofapython3::py_shared_ptr<T>, true)
