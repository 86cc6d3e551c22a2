#ifndef VERIF_ERR10_H
#define VERIF_ERR10_H
void ERR_remove_thread_state( const void *tid );
#endif
