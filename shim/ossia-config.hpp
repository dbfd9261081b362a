#pragma once
#define OSSIA_SHARED_MUTEX_AVAILABLE
#define OSSIA_PROTOCOL_OSC
#define OSSIA_PROTOCOL_MINUIT
#define OSSIA_PROTOCOL_OSCQUERY
#define OSSIA_DATAFLOW
#define OSSIA_EDITOR
#define OSSIA_PARALLEL
