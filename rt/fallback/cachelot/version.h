#ifndef CACHELOT_VERSION_H_INCLUDED
#define CACHELOT_VERSION_H_INCLUDED

//
//  (C) Copyright 2015 Iurii Krasnoshchok
//
//  Distributed under the terms of Simplified BSD License
//  see LICENSE file


#define CACHELOT_VERSION_MAJOR "?"
#define CACHELOT_VERSION_MINOR "?"
#define CACHELOT_VERSION_PATCH "?"
#define CACHELOT_VERSION_EXTRA "unknown"
#define CACHELOT_VERSION_HASH "XXX"
#define CACHELOT_OS_NAME "Linux x64"

#define CACHELOT_VERSION_SHORT CACHELOT_VERSION_MAJOR "." CACHELOT_VERSION_MINOR "." CACHELOT_VERSION_PATCH

#define CACHELOT_VERSION_FULL "Cachelot v" CACHELOT_VERSION_SHORT "-" CACHELOT_VERSION_HASH " (" CACHELOT_VERSION_EXTRA ") " CACHELOT_OS_NAME

#if defined(DEBUG)
#  define CACHELOT_VERSION_NOTICE "Warning! Debug build. Do not use in production"
#else
#  define CACHELOT_VERSION_NOTICE "www.cachelot.io"
#endif



#endif // CACHELOT_VERSION_H_INCLUDED
