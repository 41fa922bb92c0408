#include "slots.h"
SlotBase* makeSlotInt(const std::string& type, const std::string& shape) {
    if (type == "char") return makeSlot<char>(shape);
    if (type == "uchar") return makeSlot<unsigned char>(shape);
    if (type == "short") return makeSlot<short>(shape);
    if (type == "ushort") return makeSlot<unsigned short>(shape);
    if (type == "int") return makeSlot<int>(shape);
    return NULL;
}
