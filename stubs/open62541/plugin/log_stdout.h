#pragma once
#include <open62541/plugin/log.h>
extern const UA_Logger *UA_Log_Stdout;
