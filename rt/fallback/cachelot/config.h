#ifndef CACHELOT_CONFIG_H_INCLUDED
#define CACHELOT_CONFIG_H_INCLUDED

//
//  (C) Copyright 2015 Iurii Krasnoshchok
//
//  Distributed under the terms of Simplified BSD License
//  see LICENSE file

#define HAVE_ALIGNED_ALLOC 1
#define HAVE_POSIX_MEMALIGN 1

#endif // CACHELOT_CONFIG_H_INCLUDED
