#define THRIFT_VERSION "0.9.0"
