#ifndef VERIF_UA_LOG_H
#define VERIF_UA_LOG_H
#include <open62541/types.h>
typedef enum { UA_LOGLEVEL_TRACE = 100, UA_LOGLEVEL_DEBUG = 200, UA_LOGLEVEL_INFO = 300, UA_LOGLEVEL_WARNING = 400, UA_LOGLEVEL_ERROR = 500, UA_LOGLEVEL_FATAL = 600 } UA_LogLevel;
typedef enum { UA_LOGCATEGORY_NETWORK = 0, UA_LOGCATEGORY_SECURECHANNEL, UA_LOGCATEGORY_SESSION, UA_LOGCATEGORY_SERVER, UA_LOGCATEGORY_CLIENT, UA_LOGCATEGORY_USERLAND } UA_LogCategory;
typedef struct UA_Logger { void (*log)(void *logContext, UA_LogLevel level, UA_LogCategory category, const char *msg, va_list args); void *context; void (*clear)(struct UA_Logger *logger); } UA_Logger;
void UA_LOG_DEBUG(const UA_Logger *logger, UA_LogCategory category, const char *msg, ...) __attribute__((format(printf,3,4)));
void UA_LOG_INFO(const UA_Logger *logger, UA_LogCategory category, const char *msg, ...) __attribute__((format(printf,3,4)));
void UA_LOG_WARNING(const UA_Logger *logger, UA_LogCategory category, const char *msg, ...) __attribute__((format(printf,3,4)));
void UA_LOG_ERROR(const UA_Logger *logger, UA_LogCategory category, const char *msg, ...) __attribute__((format(printf,3,4)));
#endif
