R = "eas_rtttl.c"; I = "eas_imelody.c"; O = "eas_ota.c"; W = "eas_wtengine.c"; S = "eas_wtsynth.c"; X = "example/sonivoxrender.c"
M = [
("rt_loop_pos", "C31 C29", R, "                if ((result = EAS_HWFileSeek(pEASData->hwInstData, pData->fileHandle, pData->repeatOffset)) != EAS_SUCCESS)\n                    return result;\n", "                if ((result = EAS_HWFileSeek(pEASData->hwInstData, pData->fileHandle, pData->repeatOffset)) != EAS_SUCCESS)\n                    return result;\n                pData->style = 'n';\n"),
("rt_loop_inf", "C31", R, "if ((i < 0) || (i > 15))", "if ((i < 0) || (i > 14))"),
("rt_loop_off", "C31 C10", R, "                if (pData->repeatCount != RTTTL_INFINITE_LOOP)\n                    pData->repeatCount--;", "                if (pData->repeatCount != RTTTL_INFINITE_LOOP)\n                    pData->repeatCount -= (pData->repeatCount > 7) ? 2 : 1;"),
("rt_lastnote", "C31", R, "            if (!note)\n            {\n                /* if no loop", "            if (!note || (note == RTTTL_REST))\n            {\n                /* if no loop"),
("rt_b_oct", "C31", R, "octave = (EAS_U8) (temp * 12);", "octave = pData->octave;"),
("rt_dot_after", "C31", R, "            ticks += ticks >> 1;", "            ticks += note ? ticks >> 1 : 0;"),
("rt_dur32", "C31", R, "&& (duration != 16) && (duration != 32))", "&& (duration != 16))"),
("rt_stacc", "C31", R, "pData->restTicks = ticks >> 1;", "pData->restTicks = ticks >> 2;"),
("rt_restflag", "C31", R, "                if (ticks > (INT32_MAX - pData->time))\n                {\n                    return EAS_ERROR_FILE_FORMAT;\n                }\n                pData->time += ticks;", "                if (ticks > (INT32_MAX - pData->time))\n                {\n                    return EAS_ERROR_FILE_FORMAT;\n                }\n                pData->time += ticks - pData->restTicks;"),
("rt_sharp_h", "C31", R, "            if (note)\n                note++;", "            if (note && (note != noteTable[1]))\n                note++;"),
("rt_tempo_hi", "C31", R, "if ((tempo < 25) || (tempo > 900))", "if ((tempo < 25) || (tempo > 600))"),
("rt_title31", "C31 C23", R, "            if (i < (pData->metadata.bufferSize- 1))", "            if (i < (pData->metadata.bufferSize- 2))"),
("rt_upper", "C31", R, "            *pValue = ToLower(temp);\n            return EAS_SUCCESS;\n        }\n        pData->dataByte = 0;", "            *pValue = temp;\n            return EAS_SUCCESS;\n        }\n        pData->dataByte = 0;"),
("rt_reset_cnt", "C29 C31", R, "    pData->repeatCount = 0;\n    pData->style", "    pData->style"),
("rt_reset_rest", "C29 C13", R, "    pData ->restTicks = 0;\n", ""),
("rt_seekplay", "C13 C31", R, "                if (parserMode == eParserModePlay)\n                    VMStartNote", "                if (parserMode != eParserModeMetaData)\n                    VMStartNote"),
("rt_ws", "C31", R, "        temp = pData->dataByte;\n\n        /* ignore white space */\n        if (!IsSpace(temp))", "        temp = pData->dataByte;\n\n        /* ignore white space */\n        if (temp != ' ')"),
("rt_close", "C05", R, "    if (pData->pSynth != NULL)\n        VMMIDIShutdown", "    if ((pData->pSynth != NULL) && (pData->state != EAS_STATE_ERROR))\n        VMMIDIShutdown"),
("im_rep_time", "C31 C08", I, "                if (pData->repeatTime == pData->time) {", "                if (pData->repeatTime + 64 >= pData->time) {"),
("im_rep_cnt", "C31", I, "                    if (pData->repeatCount < 0)\n                        pData->repeatCount = (EAS_I16) temp;", "                    if (pData->repeatCount < 0)\n                        pData->repeatCount = (EAS_I8) temp;"),
("im_rep_ofs", "C31", I, "pData->repeatOffset = pData->startLine + (EAS_I32) pData->index;", "pData->repeatOffset = pData->startLine + (EAS_I32) pData->index - (pData->startLine == 0);"),
("im_rep_nested", "C31", I, "                        if (pData->repeatCount == -1)\n                            pData->repeatOffset = -1;", "                        if (pData->repeatCount == -1)\n                            pData->repeatOffset = -1, pData->noteModifier = 0, pData->octave = 60;"),
("im_flat_keep", "C31", I, "    /* reset the flat/sharp modifier */\n    pData->noteModifier = 0;", "    /* reset the flat/sharp modifier */\n    if (pData->noteModifier > 0)\n        pData->noteModifier = 0;"),
("im_flat_rest", "C31", I, "    /* next event is at end of this note */\n    pData->time += duration;\n", "    /* next event is at end of this note */\n    pData->time += duration;\n    pData->noteModifier = 0;\n"),
("im_vplus", "C31", I, "        if (pData->volume < 15)\n            pData->volume++;", "        if (pData->volume < 14)\n            pData->volume++;"),
("im_v2", "C31", I, "        temp = temp * 10 + c - '0';\n    else if (c)\n        PutBackChar(pData);\n    if ((temp >= 0)", "        temp = temp * 10 + c - '0';\n    if ((temp >= 0)"),
("im_style2", "C31", I, "            pData->restTicks = duration >> 1;", "            pData->restTicks = (duration >> 1) + (duration >> 3);"),
("im_triplet", "C31", I, "duration = (duration * TRIPLET_MULTIPLIER) >> TRIPLET_SHIFT;", "duration = (duration >> 1) + (duration >> 3);"),
("im_dd", "C31", I, "duration += (duration >> 1) + (duration >> 2);", "duration += (duration >> 1) + (duration >> 3);"),
("im_octlow", "C31", I, "pData->octave = (EAS_U8) ((c - '0' + 1) * 12);", "pData->octave = (EAS_U8) ((c > '1' ? c - '0' + 1 : 2) * 12);"),
("im_restart_line", "C31", I, "                        pData->index = 0;\n\n                        /* if last loop", "                        /* if last loop"),
("im_led", "C31", I, "EAS_HWLED(pEASData->hwInstData, EAS_FALSE);\n                    return EAS_TRUE;", "return EAS_TRUE;"),
("im_infinite_seek", "C08 C13", I, "if ((parserMode == eParserModePlay) || (pData->repeatCount != 0))", "if ((parserMode != eParserModeMetaData) || (pData->repeatCount != 0))"),
("ot_rest_mod", "C31", O, "            else\n                pData->time += (EAS_I32) duration;", "            else\n                pData->time += (EAS_I32) (duration & ~(duration >> 5));"),
("ot_loop_ref", "C31", O, "            /* if pattern definition, save the current position */\n            if (pData->current.patternLen)\n", "            /* if pattern definition, save the current position */\n            if (pData->current.patternLen == 0)\n                pData->loopCount = 0;\n            if (pData->current.patternLen)\n"),
("ot_restore", "C31", O, "            pData->restore.fileOffset = -1;\n        }\n    }\n\n    /* get the next", "            if (pData->numPatterns)\n                pData->restore.fileOffset = -1;\n        }\n    }\n\n    /* get the next"),
("ot_dbldot", "C31", O, "duration += (duration >> 1) + (duration >> 2);", "duration += (duration >> 1) + (duration >> 2) + (duration >> 3);"),
("ot_oct3", "C31", O, "pData->octave = (EAS_U8) (temp * 12 + 59);", "pData->octave = (EAS_U8) ((temp < 3 ? temp : 2) * 12 + 59);"),
("ot_vol0", "C31", O, "pData->velocity = temp ? (EAS_U8) (temp * OTA_VEL_MUL + OTA_VEL_OFS) : 0;", "pData->velocity = (EAS_U8) (temp * OTA_VEL_MUL + OTA_VEL_OFS);"),
("ot_bits", "C31", O, "        pData->current.dataByte = pData->current.dataByte & (0xff >> (8 - bitsLeft));", "        pData->current.dataByte = pData->current.dataByte & (0x7f >> (7 - bitsLeft));"),
("ot_reset_style", "C29 C31", O, "    pData->style = 0;\n", ""),
("ot_reset_oct", "C29 C31", O, "    pData->octave = 59;\n", ""),
("ot_reset_vel", "C29 C31", O, "    pData->velocity = OTA_VEL_DEFAULT;\n", ""),
("ot_loop15", "C31 C08", O, "if (pData->loopCount && ((parserMode == eParserModePlay) || (pData->loopCount != OTA_INFINITE_LOOP)))", "if (pData->loopCount && (pData->loopCount != OTA_INFINITE_LOOP))"),
("ot_unicode", "C31 C23", O, "titleLen = (EAS_U8) (titleLen << 1);", "titleLen = (EAS_U8) ((titleLen << 1) & 0x0f);"),
("ot_pattern3", "C31", O, "pData->patterns[2].fileOffset = pData->patterns[3].fileOffset = -1;", "pData->patterns[2].fileOffset = -1;"),
("ot_play", "C13 C31", O, "                if (parserMode == eParserModePlay)\n                    VMStartNote", "                if (parserMode != eParserModeMetaData)\n                    VMStartNote"),
("we_loopmod", "C24 C09 C01", W, "            while (pSamples >= loopEnd) {", "            if (pSamples >= loopEnd) {"),
("we_loopfirst", "C24", W, "    samp1 = pSamples[0];\n    samp2 = &pSamples[1] < loopEnd ? pSamples[1] : loopStart[0];\n#endif\n\n    while", "    samp1 = pSamples[0];\n    samp2 = pSamples[1];\n#endif\n\n    while"),
("we_loopwrapfetch", "C24", W, "            samp1 = pSamples[0];\n            samp2 = &pSamples[1] < loopEnd ? pSamples[1] : loopStart[0];", "            samp1 = pSamples[0];\n            samp2 = &pSamples[1] < loopEnd ? pSamples[1] : samp1;"),
("we_filterz", "C24 C09 C21", W, "    pFilter->z2 = (EAS_I16) z2;", "    pFilter->z2 = (EAS_I16) z1;"),
("x_preset4", "C26", X, "preset <= EAS_PARAM_REVERB_ROOM", "preset < EAS_PARAM_REVERB_ROOM"),
("x_state", "C26", X, "if (state == EAS_STATE_STOPPED || state == EAS_STATE_ERROR)", "if (state == EAS_STATE_STOPPED || state == EAS_STATE_STOPPING || state == EAS_STATE_ERROR)"),
("x_second", "C26", X, "        if (ok != EXIT_SUCCESS) {\n            break;\n        }\n    }\n\n    shutdownLibrary();", "    }\n\n    shutdownLibrary();"),
("x_wetmax", "C26", X, "reverb_wet > 32765", "reverb_wet > 32764"),
("x_dlsfail", "C26", X, "            fprintf(stderr, \"Failed to load DLS file\\n\");\n            ok = EXIT_FAILURE;\n            goto cleanup;", "            fprintf(stderr, \"Failed to load DLS file\\n\");"),
("x_count", "C26", X, "fwrite(mAudioBuffer, sizeof(EAS_PCM), mEASConfig->mixBufferSize * mEASConfig->numChannels, stdout);", "fwrite(mAudioBuffer, sizeof(EAS_PCM) * mEASConfig->numChannels, count - (count & 1), stdout);"),
("x_modify", "C26", X, "    mEasFile.handle = fopen(fileName, \"rb\");", "    mEasFile.handle = fopen(fileName, \"r+b\");"),
("we_phasekeep", "C25 C24 C21", W, "    pWTVoice->phaseFrac = (EAS_U32) phaseFrac;\n}\n#endif\n\n#if !defined(NATIVE_EAS_KERNEL) || defined(_16_BIT_SAMPLES)", "    pWTVoice->phaseFrac = (EAS_U32) phaseFrac & ~3;\n}\n#endif\n\n#if !defined(NATIVE_EAS_KERNEL) || defined(_16_BIT_SAMPLES)"),
]
