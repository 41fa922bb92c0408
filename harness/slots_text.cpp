#include "slots.h"
const char g_marker[] = "marker";
SlotBase* makeSlotText(const std::string& type, const std::string& shape) {
    if (type == "string") return makeSlot<std::string>(shape);
    if (type == "cstr") return makeSlot<const char*>(shape);
    if (type == "char1") return new OneSlot<char[1]>();
    if (type == "char5") return new OneSlot<char[5]>();
    if (type == "char6") return new OneSlot<char[6]>();
    if (type == "char4") return new OneSlot<char[4]>();
    if (type == "char16") return new OneSlot<char[16]>();
    if (type == "enum") return makeSlot<Color>(shape);
    if (type == "bool") return makeSlot<bool>(shape);
    return NULL;
}
