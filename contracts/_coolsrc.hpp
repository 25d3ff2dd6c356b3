#pragma once
#include "cooling/CoolSystem.cpp"
#include "cooling/CoolSystem_HVAC.cpp"
#include "cooling/CoolSystem_open.cpp"
#include "cooling/data_storage/CoolSystemData.cpp"
#include "cooling/data_storage/CoolSystem_HVACData.cpp"
