/* the Android logging macros that fakes/ does not provide */
#ifndef VERIF_ANDROID_SHIM_H
#define VERIF_ANDROID_SHIM_H
#ifndef ALOGD
#define ALOGD(...) ((void)0)
#endif
#ifndef ALOGV
#define ALOGV(...) ((void)0)
#endif
#ifndef ALOGE
#define ALOGE(...) ((void)0)
#endif
#ifndef ALOGW
#define ALOGW(...) ((void)0)
#endif
#endif
