P = "eas_public.c"; H = "eas_hostmm.c"; X = "eas_mixer.c"; L = "eas_dlssynth.c"
M = [
("pub_render_wl", "C11", P, "    *pNumGenerated = 0;\n    VMInitWorkload(pEASData->pVoiceMgr);", "    VMInitWorkload(pEASData->pVoiceMgr);"),
("pub_init_volume", "C19 C27 C18", P, "    pStream->volume = DEFAULT_STREAM_VOLUME;\n", "    if (pStream->volume == 0) pStream->volume = DEFAULT_STREAM_VOLUME;\n"),
("pub_init_repeat", "C29 C18 C27", P, "    pStream->frameLength = AUDIO_FRAME_LENGTH;\n    pStream->repeatCount = 0;\n", "    pStream->frameLength = AUDIO_FRAME_LENGTH;\n"),
("pub_init_rate", "C10 C09 C27", P, "    pStream->time = 0;\n    pStream->frameLength = AUDIO_FRAME_LENGTH;\n", "    pStream->time = 0;\n    if (pStream->frameLength == 0) pStream->frameLength = AUDIO_FRAME_LENGTH;\n"),
("pub_init_flags", "C12 C09", P, "    pStream->volume = DEFAULT_STREAM_VOLUME;\n    pStream->streamFlags = 0;\n", "    pStream->volume = DEFAULT_STREAM_VOLUME;\n"),
("pub_dls_replace", "C02 C24", P, "                if (pOldDLS != NULL)\n                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);", ""),
("pub_lib_reset", "C04 C09", P, "                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);\n                    VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);\n                }", "                    VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);\n                }"),
("pub_open_close", "C05", P, "        if ((result = (*pParserModule->pfCheckFileType)(pEASData, fileHandle, &streamHandle, 0L)) != EAS_SUCCESS)\n        {\n            /* Closing the opened file as file type check failed */\n            EAS_HWCloseFile(pEASData->hwInstData, fileHandle);\n", "        if ((result = (*pParserModule->pfCheckFileType)(pEASData, fileHandle, &streamHandle, 0L)) != EAS_SUCCESS)\n        {\n"),
("pub_open_noslot", "C05 C27", P, "        /* Closing the opened file as stream allocation failed */\n        EAS_HWCloseFile(pEASData->hwInstData, fileHandle);\n        return EAS_ERROR_MAX_STREAMS_OPEN;", "        return EAS_ERROR_MAX_STREAMS_OPEN;"),
("pub_rep_dec", "C29", P, "                    if (pEASData->streams[streamNum].repeatCount > 0)\n                        pEASData->streams[streamNum].repeatCount--;", "                    if (pEASData->streams[streamNum].repeatCount > -2)\n                        pEASData->streams[streamNum].repeatCount--;"),
("pub_rep_time", "C29", P, "                        return result;\n                    pEASData->streams[streamNum].time = 0;\n", "                        return result;\n"),
("pub_rep_vol", "C29 C19", P, "    (void) EAS_SetVolume(pEASData, pStream, pStream->volume);\n    return EAS_SUCCESS;", "    return EAS_SUCCESS;"),
("pub_rate_lo", "C18 C10", P, "    if ((rate < (1 << 27)) || (rate > (1 << 29)))", "    if ((rate <= (1 << 27)) || (rate > (1 << 29)))"),
("pub_rate_len", "C10", P, "(AUDIO_FRAME_LENGTH * (rate >> 8)) >> 20;", "((AUDIO_FRAME_LENGTH * (rate >> 12)) >> 20) << 4;"),
("pub_trans_hi", "C18 C25", P, "(transposition < -12) || (transposition > 12)", "(transposition < -12) || (transposition >= 12)"),
("pub_parse_timeadj", "C12 C10", P, "            if (parseMode != eParserModePlay)\n                pStream->time = time << 8;\n", "            pStream->time = time << 8;\n"),
("pub_parse_le", "C10 C13", P, "            if (time < (endTime >> 8))\n", "            if (time <= (endTime >> 8))\n"),
("pub_maxev", "C08 C10", P, "MAX_EVENT_COUNT = 100000", "MAX_EVENT_COUNT = 3000"),
("pub_maxev_mode", "C23 C10", P, "if (++eventCount >= MAX_EVENT_COUNT && parseMode == eParserModePlay) {", "if (++eventCount >= MAX_EVENT_COUNT) {"),
("pub_maxev_off", "C08", P, "if (++eventCount >= MAX_EVENT_COUNT && parseMode == eParserModePlay) {", "if (++eventCount >= MAX_EVENT_COUNT && parseMode == eParserModePlay && pStream->repeatCount == 0) {"),
("pub_meta_time0", "C23 C10", P, "    pStream->time = 0;\n    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;\n    return EAS_ResetStream(pEASData, pStream);", "    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;\n    return EAS_ResetStream(pEASData, pStream);"),
("pub_meta_parsed", "C23", P, "    pStream->time = 0;\n    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;\n    return EAS_ResetStream(pEASData, pStream);", "    pStream->time = 0;\n    return EAS_ResetStream(pEASData, pStream);"),
("pub_meta_reset", "C23", P, "    pStream->time = 0;\n    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;\n    return EAS_ResetStream(pEASData, pStream);", "    pStream->time = 0;\n    pStream->streamFlags &= ~STREAM_FLAGS_PARSED;\n    return EAS_SUCCESS;"),
("pub_metacb_size", "C18 C23 C04", P, "((metaDataBuffer == NULL) || (metaDataBufSize < 1))", "((metaDataBuffer == NULL) || (metaDataBufSize < 2))"),
("pub_close_handle", "C05 C04", P, "    pStream->handle = NULL;\n    pStream->pParserModule = NULL;\n    return result;", "    pStream->handle = NULL;\n    if (result == EAS_SUCCESS) pStream->pParserModule = NULL;\n    return result;"),
("pub_midi_ref", "C27 C04", P, "            VMIncRefCount(pMIDIStream->pSynth);\n", "            if (pMIDIStream->pSynth->refCount < 2) VMIncRefCount(pMIDIStream->pSynth);\n"),
("pub_write_zero", "C03 C04", P, "    if (count <= 0)\n        return EAS_ERROR_PARAMETER_RANGE;", "    if (count < 0)\n        return EAS_ERROR_PARAMETER_RANGE;"),
("pub_write_err", "C16 C03", P, "    /* send the entire buffer */\n    while (count--)", "    /* send the entire buffer */\n    if (count > 4096) count = 4096;\n    while (count--)"),
("pub_state_pausing", "C12", P, "        if (pStream->streamFlags & STREAM_FLAGS_LOCATE)\n            *pState = EAS_STATE_PAUSED;", "        if (pStream->streamFlags)\n            *pState = EAS_STATE_PAUSED;"),
("pub_state_rep", "C12 C29", P, "    if (pStream->repeatCount && (*pState == EAS_STATE_STOPPED))\n        *pState = EAS_STATE_PLAY;\n", "    if (pStream->repeatCount > 0 && (*pState == EAS_STATE_STOPPED))\n        *pState = EAS_STATE_PLAY;\n"),
("pub_vol_gainoffs", "C19", P, "        if (result == EAS_SUCCESS)\n            volume += gainOffset;", "        if (result == EAS_SUCCESS && volume < 100)\n            volume += gainOffset;"),
("pub_vol_master", "C18", P, "    pEASData->masterVolume = (EAS_U8) volume;\n", "    pEASData->masterVolume = (EAS_U8) (volume - (volume == EAS_MAX_VOLUME));\n"),
("pub_vol_range", "C18", P, "    if ((volume < 0) || (volume > EAS_MAX_VOLUME))", "    if ((volume < 0) || (volume >= EAS_MAX_VOLUME))"),
("pub_loc_ofs", "C13", P, "        milliseconds += (EAS_I32) pStream->time >> 8;", "        milliseconds += (EAS_I32) (pStream->time + 255) >> 8;"),
("pub_loc_neg", "C13", P, "    if (milliseconds < 0)\n        milliseconds = 0;", "    if (milliseconds < 0)\n        milliseconds = -milliseconds;"),
("pub_loc_same", "C13", P, "    if (requestedTime == (pStream->time >> 8))\n        return EAS_SUCCESS;", "    if (requestedTime <= (pStream->time >> 8) && requestedTime + 2 > (pStream->time >> 8))\n        return EAS_SUCCESS;"),
("pub_loc_flag", "C12", P, "    pStream->streamFlags |= STREAM_FLAGS_LOCATE;\n", ""),
("pub_loc_pausing", "C12", P, "    if (((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED)) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))", "    if ((state == EAS_STATE_PAUSED) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))"),
("pub_loc_resume", "C12", P, " && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))\n        pStream->streamFlags |= STREAM_FLAGS_PAUSE;", ")\n        pStream->streamFlags |= STREAM_FLAGS_PAUSE;"),
("pub_loc_reset", "C13", P, "    if ((result = EAS_ResetStream(pEASData, pStream)) != EAS_SUCCESS)\n        return result;\n    pStream->time = 0;\n", "    if (requestedTime < (pStream->time >> 8)) {\n    if ((result = EAS_ResetStream(pEASData, pStream)) != EAS_SUCCESS)\n        return result;\n    pStream->time = 0; }\n"),
("pub_loc_time0", "C13", P, "    if ((result = EAS_ResetStream(pEASData, pStream)) != EAS_SUCCESS)\n        return result;\n    pStream->time = 0;\n", "    if ((result = EAS_ResetStream(pEASData, pStream)) != EAS_SUCCESS)\n        return result;\n"),
("pub_pause_resume", "C12", P, "        /* clear resume flag */\n        pStream->streamFlags &= ~STREAM_FLAGS_RESUME;\n", ""),
("pub_resume_pause", "C12", P, "        /* clear pause flag */\n        pStream->streamFlags &= ~STREAM_FLAGS_PAUSE;\n", ""),
("pub_pause_state", "C12", P, "(state != EAS_STATE_PLAY) && (state != EAS_STATE_READY) && ((pStream->streamFlags", "(state != EAS_STATE_PLAY) && ((pStream->streamFlags"),
("pub_render_locate", "C12", P, "        pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_LOCATE;\n", ""),
("pub_render_resume", "C12", P, "            pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_RESUME;\n", ""),
("pub_render_break", "C27", P, "    for (streamNum = 0; streamNum < MAX_NUMBER_STREAMS; streamNum++)\n        if (pEASData->streams[streamNum].pParserModule != NULL)\n            pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_PARSED;", "    for (streamNum = 0; streamNum < MAX_NUMBER_STREAMS - 1; streamNum++)\n        if (pEASData->streams[streamNum].pParserModule != NULL)\n            pEASData->streams[streamNum].streamFlags &= ~STREAM_FLAGS_PARSED;"),
("pub_rtime", "C11", P, "    *pTime = pEASData->renderTime >> 8;", "    *pTime = (EAS_I32) (unsigned short) (pEASData->renderTime >> 16) << 8 | ((pEASData->renderTime >> 8) & 0xff);"),
("pub_param_neg", "C04 C18", P, "    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))\n        return EAS_ERROR_INVALID_MODULE;\n\n    if (pEASData->effectsModules[module].effectData == NULL)\n        return EAS_ERROR_INVALID_MODULE;\n\n    return (*pEASData->effectsModules[module].effect->pFGetParam)", "    if (module >= NUM_EFFECTS_MODULES)\n        return EAS_ERROR_INVALID_MODULE;\n\n    if (pEASData->effectsModules[module].effectData == NULL)\n        return EAS_ERROR_INVALID_MODULE;\n\n    return (*pEASData->effectsModules[module].effect->pFGetParam)"),
("pub_dls_close", "C05 C06", P, "    result = DLSParser(pEASData->hwInstData, fileHandle, 0, &pDLS);\n    EAS_HWCloseFile(pEASData->hwInstData, fileHandle);\n", "    result = DLSParser(pEASData->hwInstData, fileHandle, 0, &pDLS);\n    if (result == EAS_SUCCESS) EAS_HWCloseFile(pEASData->hwInstData, fileHandle);\n"),
("pub_dls_noclean", "C05 C02", P, "            DLSCleanup(pEASData->hwInstData, pDLS);\n        }\n\n        /* global DLS load */", "            if (result != EAS_SUCCESS) DLSCleanup(pEASData->hwInstData, pDLS);\n        }\n\n        /* global DLS load */"),
("host_count", "C07 C01", H, "    if (n < count)\n        count = n;", "    if (n <= count)\n        count = n;\n    else if (count > 64) count = 64;"),
("host_neg", "C01 C07", H, "    if (count < 0)\n      return EAS_EOF;", ""),
("host_readneg", "C07", H, "        if (count < 0)\n            count = 0;\n", ""),
("host_seek_eq", "C17", H, "    if ((position < 0) || (position > file->size(file->handle)))\n        return EAS_ERROR_FILE_SEEK;\n\n    /* save new position */\n    file->filePos = position;\n    return EAS_SUCCESS;\n}\n\n/*----------------------------------------------------------------------------\n *\n * EAS_HWFileSeekOfs", "    if ((position < 0) || (position >= file->size(file->handle)))\n        return EAS_ERROR_FILE_SEEK;\n\n    /* save new position */\n    file->filePos = position;\n    return EAS_SUCCESS;\n}\n\n/*----------------------------------------------------------------------------\n *\n * EAS_HWFileSeekOfs"),
("host_seekofs_neg", "C07 C01", H, "    position += file->filePos;\n    if ((position < 0) || (position > file->size(file->handle)))", "    position += file->filePos;\n    if (position > file->size(file->handle))"),
("host_seekofs_big", "C07 C01", H, "    position += file->filePos;\n    if ((position < 0) || (position > file->size(file->handle)))", "    position += file->filePos;\n    if (position < 0)"),
("host_dup_pos", "C17", H, "            dupFile->filePos = file->filePos;\n", "            dupFile->filePos = 0;\n"),
("host_word", "C10 C24", H, "((EAS_U16) c2 << 8) | c1", "((EAS_U16) (c2 & 0x7f) << 8) | c1"),
("host_dword", "C24", H, "((EAS_U32) c4 << 24) | ((EAS_U32) c3 << 16)", "((EAS_U32) c4 << 24) | ((EAS_U32) (c3 & 0x7f) << 16)"),
("host_closed", "C04", H, "    if (file1->handle == NULL)\n        return EAS_ERROR_INVALID_HANDLE;\n", ""),
("host_maxf", "C27 C05 C17", H, "    for (i = 0; i < EAS_MAX_FILE_HANDLES; i++)\n    {\n        /* is this slot being used? */\n        if (file->handle == NULL)", "    for (i = 0; i < EAS_MAX_FILE_HANDLES - 60; i++)\n    {\n        /* is this slot being used? */\n        if (file->handle == NULL)"),
("mix_sat", "C21", X, "        s = SATURATE(s);\n", "        s = s > 32767 ? 32767 : s < -32767 ? -32767 : s;\n"),
("mix_nosat", "C21", X, "        s = SATURATE(s);\n", "        if (nGain > 100) s = SATURATE(s);\n"),
("mix_gain", "C21", X, "        s = s >> 7;\n", "        s = (s + 64) >> 7;\n"),
("dls_filterz", "C09", L, "    pWTVoice->filter.z1 = 0;\n    pWTVoice->filter.z2 = 0;\n", "    pWTVoice->filter.z1 = 0;\n"),
("dls_viblfo", "C09", L, "    pWTVoice->vibLFO.lfoValue = 0;\n", ""),
("dls_vibdelay", "C09", L, "    pWTVoice->vibLFO.lfoPhase = pDLSArt->vibLFO.lfoDelay;\n", ""),
("dls_rhythm_tr", "C25 C24", L, "    if ((pChannel ->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL) == 0)\n        temp", "    temp"),
("dls_keynum", "C24", L, "(((EAS_I32) pVoice->note * (EAS_I32) pDLSArt->keyNumToPitch) >> 7);", "(((EAS_I32) (pVoice->note & 0x3f) * (EAS_I32) pDLSArt->keyNumToPitch) >> 7);"),
("dls_gain0", "C24 C21", L, "    if (gain > 0)\n        gain = 0;\n", ""),
("dls_velsens", "C24 C19", L, "    if (pDLSArt->filterQandFlags & FLAG_DLS_VELOCITY_SENSITIVE)", "    if ((pDLSArt->filterQandFlags & FLAG_DLS_VELOCITY_SENSITIVE) && velocity != 127 && velocity > 1)"),
("dls_loopend", "C24", L, "+ (pDLSRegion->wtRegion.loopEnd<<1) - 2;", "+ (pDLSRegion->wtRegion.loopEnd<<1);"),
("dls_samplelen", "C24 C02", L, "                + pSynth->pDLS->pDLSSampleLen[pDLSRegion->wtRegion.waveIndex] - 2;", "                + pSynth->pDLS->pDLSSampleLen[pDLSRegion->wtRegion.waveIndex];"),
("dls_muteflags", "C15 C08", L, "        VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF |\n        VOICE_FLAG_DEFER_MUTE);", "        VOICE_FLAG_DEFER_MUTE);"),
("dls_rel_attack", "C24", L, "    if (pWTVoice->eg1State == eEnvelopeStateAttack)\n        pWTVoice->eg1Value = (EAS_I16) ((EAS_flog2(pWTVoice->eg1Value) << 1) + 2048);\n", ""),
("dls_pan", "C19 C24", L, "(EAS_INT) pChannel->pan - 64 + (EAS_INT) pDLSArt->pan,", "(EAS_INT) pDLSArt->pan,"),
("dls_mod_press", "C25 C24", L, "    temp += ((pDLSArt->modLFOChanPressToPitch * pChannel->channelPressure) >> 7);", ""),
("dls_vib_wheel", "C25 C24", L, "    temp += ((pDLSArt->vibLFOCC1ToPitch * pChannel->modWheel) >> 7);", ""),
("dls_stolen_done", "C14 C09", L, "    if ((pVoice->voiceState != eVoiceStateStolen) && (pWTVoice->eg1State == eEnvelopeStateMuted))", "    if (pWTVoice->eg1State == eEnvelopeStateMuted)"),
("dls_eg2", "C24", L, "    pitchCents += FMUL_15x15(pDLSArt->eg2ToPitch, pWTVoice->eg2Value);", "    if (pDLSArt->eg2ToPitch > 0) pitchCents += FMUL_15x15(pDLSArt->eg2ToPitch, pWTVoice->eg2Value);"),
("dls_fc_vel", "C24", L, "    cutoff += (pVoice->velocity * pDLSArt->velToFc) >> 7;", ""),
("dls_fc_key", "C24", L, "    cutoff += (pVoice->note * pDLSArt->keyNumToFc) >> 7;", ""),
("dls_eg_hold", "C24", L, "            *pState = eEnvelopeStateHold;\n            if (pEnvParams->holdTime != ZERO_TIME_IN_CENTS)", "            *pState = eEnvelopeStateHold;\n            if (pEnvParams->holdTime > 0)"),
("dls_eg_delay", "C24 C09", L, "            *pIncrement = pEnvParams->delayTime;\n            if (*pIncrement != 0)\n                return;", "            if (pEnvParams->delayTime) { *pIncrement = pEnvParams->delayTime;\n                return; }"),
("dls_eg_sust", "C24", L, "temp > pEnvParams->sustainLevel ? temp : pEnvParams->sustainLevel);", "temp);"),
]
