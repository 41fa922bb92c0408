#include "slots.h"
SlotBase* makeSlotFloat(const std::string& type, const std::string& shape) {
    if (type == "float") return makeSlot<float>(shape);
    if (type == "double") return makeSlot<double>(shape);
    if (type == "ldouble") return makeSlot<long double>(shape);
    return NULL;
}
