#include "slots.h"
SlotBase* makeSlotInt2(const std::string& type, const std::string& shape) {
    if (type == "uint") return makeSlot<unsigned int>(shape);
    if (type == "long") return makeSlot<long>(shape);
    if (type == "ulong") return makeSlot<unsigned long>(shape);
    if (type == "llong") return makeSlot<long long>(shape);
    if (type == "ullong") return makeSlot<unsigned long long>(shape);
    return NULL;
}
