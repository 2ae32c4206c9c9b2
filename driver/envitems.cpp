#include "envitems.hpp"
namespace envire {
ENVIRONMENT_ITEM_DEF(TFrame)
ENVIRONMENT_ITEM_DEF(TLayer)
ENVIRONMENT_ITEM_DEF(TMap)
ENVIRONMENT_ITEM_DEF(TOp00)
ENVIRONMENT_ITEM_DEF(TOp11)
ENVIRONMENT_ITEM_DEF(TOp12)
ENVIRONMENT_ITEM_DEF(TOp21)
}
