V = "eas_voicemgt.c"; F = "eas_smf.c"; W = "eas_wtsynth.c"; P = "eas_public.c"; D = "eas_mdls.c"
M = [
("g_pedal_newnote", "C15 C28", V, "                if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)\n                {\n                    pVoiceMgr->voices[voiceNum].voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;", "                if ((pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL) && !(pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET))\n                {\n                    pVoiceMgr->voices[voiceNum].voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;"),
("g_cc121_drumfine", "C28", V, "        pChannel->pitchBendSensitivity = DEFAULT_PITCH_BEND_SENSITIVITY;\n        pChannel->finePitch = DEFAULT_FINE_PITCH;\n        pChannel->coarsePitch = DEFAULT_COARSE_PITCH;\n\n        /*\n        program", "        pChannel->pitchBendSensitivity = DEFAULT_PITCH_BEND_SENSITIVITY;\n        pChannel->finePitch = DEFAULT_FINE_PITCH;\n        if (!(pChannel->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL))\n            pChannel->coarsePitch = DEFAULT_COARSE_PITCH;\n\n        /*\n        program"),
("g_rpn_lsbmask", "C25 C28", V, "(pChannel->registeredParam & 0x3F80) | value;", "(pChannel->registeredParam & 0x7F) | value;"),
("g_rpn_sel127", "C25 C28", V, "            pChannel->pitchBendSensitivity = value * 100;", "            pChannel->pitchBendSensitivity = (value & 0x1f) * 100;"),
("g_kg_mask", "C24", V, "        keyGroup = pRegion->keyGroupAndFlags & 0x0f00;", "        keyGroup = pRegion->keyGroupAndFlags & 0x0700;"),
("g_pool1", "C15 C24 C14", V, "    if (pSynth->poolCount[pChannel->pool] != 0)\n    {\n\n        /* check for key", "    if (pSynth->poolCount[pChannel->pool] > 1)\n    {\n\n        /* check for key"),
("g_prog_rhythm_lsb", "C30", V, "    if ((bank & 0xFF00) == DEFAULT_RHYTHM_BANK_NUMBER)", "    if (bank == DEFAULT_RHYTHM_BANK_NUMBER)"),
("g_prog_dlslast", "C30", V, "    /* also search bank 0 when default bank (MSB) is used */\n    if (((bank & 0xFF00) == DEFAULT_MELODY_BANK_NUMBER) ||", "    /* also search bank 0 when default bank (MSB) is used */\n    if (((bank & 0x1FF00) == DEFAULT_MELODY_BANK_NUMBER) || ((bank & 0x1FFFF) == DEFAULT_RHYTHM_BANK_NUMBER) ||"),
("g_prog_bank0lsb", "C30", V, "        locale = ((bank & 0x100FF) << 8) | programNum;", "        locale = ((bank & 0x10000) << 8) | programNum;"),
("g_relall_keepped", "C15 C28 C08", V, "            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, (EAS_U8) i);\n            pSynth->channels[i].channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;", "            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, (EAS_U8) i);"),
("g_alloff_deferred", "C15 C16", V, "                /* this voice is assigned to the requested channel */\n                VMMuteVoice(pVoiceMgr, voiceNum);", "                /* this voice is assigned to the requested channel */\n                if (pVoice->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF)\n                    VMReleaseVoice(pVoiceMgr, pSynth, voiceNum);\n                else\n                    VMMuteVoice(pVoiceMgr, voiceNum);"),
("g_retarget_mute", "C32", V, "    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&\n        (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))", "    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&\n        (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))"),
("g_setpoly_low", "C18 C14", V, "    if (polyphonyCount < 1)\n        polyphonyCount = 1;", "    if (polyphonyCount < 1)\n        polyphonyCount = 1;\n    else if (polyphonyCount > (MAX_SYNTH_VOICES - 2) && pVoiceMgr->activeVoices)\n        polyphonyCount = MAX_SYNTH_VOICES - 2;"),
("g_setpoly_stolen", "C14 C27", V, "        if (GET_VSYNTH((pVoiceMgr->voices[i].voiceState == eVoiceStateStolen) ?\n            pVoiceMgr->voices[i].nextChannel : pVoiceMgr->voices[i].channel) != pSynth->vSynthNum)", "        if (GET_VSYNTH(pVoiceMgr->voices[i].channel) != pSynth->vSynthNum)"),
("g_freeage", "C14 C09", V, "    /* all notes older than this one get \"younger\" */\n    VMUpdateAllNotesAge(pVoiceMgr, pVoice->age);\n }", " }"),
("g_steal_match", "C14 C15", V, "        if ((note == currNote) && (channel == currChannel))\n            currentPriority += NOTE_MATCH_PENALTY;", "        if (note == currNote)\n            currentPriority += NOTE_MATCH_PENALTY;"),
("g_smf_chase", "C10 C17 C23", F, "            pSMFData->flags |= SMF_FLAGS_HAS_GM_ON;", "            pSMFData->flags |= SMF_FLAGS_HAS_GM_ON | SMF_FLAGS_HAS_TEMPO;"),
("g_smf_vlq4", "C10 C17", F, "        data = (data << 7) | (c & 0x7f);", "        data = ((data & 0x3fff) << 7) | (c & 0x7f);"),
("g_smf_nextmax", "C10 C08", F, "    temp = 0x7fffffff;\n    pSMFData->nextStream = NULL;", "    temp = 0x00ffffff;\n    pSMFData->nextStream = NULL;"),
("g_smf_time24", "C10", F, "    temp1 = (ticks >> 10) * pSMFData->tickConv;", "    temp1 = (EAS_U16)(ticks >> 10) * pSMFData->tickConv;"),
("g_smf_temporound", "C10", F, "__builtin_add_overflow(temp64, 500, &temp64) ||", "__builtin_add_overflow(temp64, 0, &temp64) ||"),
("g_smf_ppqnclip", "C10", F, "        pSMFData->ppqn = (division & 0x7fff);", "        pSMFData->ppqn = (division & 0x3fff);"),
("g_smf_sysexgm", "C23 C10", F, "        if (pSMFStream->midiStream.flags & MIDI_FLAG_GM_ON)", "        if ((pSMFStream->midiStream.flags & MIDI_FLAG_GM_ON) && (len == 0))"),
("g_smf_trkmeta", "C23", F, "        else if (c == SMF_META_LYRIC)\n            metaType = EAS_METADATA_LYRIC;", "        else if ((c == SMF_META_LYRIC) && (pSMFStream == &pSMFData->streams[0]))\n            metaType = EAS_METADATA_LYRIC;"),
("g_smf_metabuf", "C23 C01", F, "            readLen = pSMFData->metadata.bufferSize - 1;", "            readLen = pSMFData->metadata.bufferSize > 256 ? 255 : pSMFData->metadata.bufferSize - 1;"),
("g_smf_chunktype", "C17", F, "            if (temp == SMF_CHUNK_TYPE_TRACK)\n                break;", "            if ((temp == SMF_CHUNK_TYPE_TRACK) || (chunkSize == 0))\n                break;"),
("g_wt_bendneg", "C25", W, "        (((EAS_I32)(pChannel->pitchBend) << 2)\n        - 32768);", "        (((EAS_I32)(pChannel->pitchBend & ~1) << 2)\n        - 32768);"),
("g_wt_drumfine", "C25 C30", W, "    if (!(pChannel->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL))\n        pChannel->staticPitch += pChannel->finePitch", "    if (channel != 9)\n        pChannel->staticPitch += pChannel->finePitch"),
("g_wt_mvol", "C19", W, "    pChannel->staticGain = (EAS_I16) MULT_EG1_EG1(staticGain, pSynth->masterVolume);", "    pChannel->staticGain = (EAS_I16) MULT_EG1_EG1(staticGain, pSynth->masterVolume | 0xff);"),
("g_wt_panclip", "C19", W, "    pan = (EAS_INT) pSynth->channels[pVoice->channel & 15].pan - 64;", "    pan = (EAS_INT) (pSynth->channels[pVoice->channel & 15].pan & 0x7e) - 64;"),
("g_wt_gainold", "C19 C09", W, "    intFrame.prevGain = pVoice->gain;\n\n    /* update the envelopes */", "    intFrame.prevGain = pVoice->gain < 0 ? 0 : pVoice->gain & ~0x3f;\n\n    /* update the envelopes */"),
("g_wt_relmut", "C15 C08", W, "            /* if we hit zero, this voice isn't contributing any audio */\n            if (temp <= 0)", "            /* if we hit zero, this voice isn't contributing any audio */\n            if (temp < 0)"),
("g_wt_lfophase", "C25", W, "    pLFO->lfoPhase = (pLFO->lfoPhase + phaseInc) & 0x7fff;", "    pLFO->lfoPhase = (pLFO->lfoPhase + phaseInc) & 0x3fff;"),
("g_wt_noiseinit", "C09", W, "        pWTVoice->phaseAccum = 4574296;\n", ""),
("g_smf_firstdelta", "C10 C17", F, "        if ((result = SMF_GetDeltaTime(hwInstData, &pSMFData->streams[i])) != EAS_SUCCESS)\n                goto ReadError;\n\n        if (pSMFData->streams[i].ticks < ticks)", "        if ((result = SMF_GetDeltaTime(hwInstData, &pSMFData->streams[i])) != EAS_SUCCESS)\n                goto ReadError;\n\n        if (pSMFData->streams[i].ticks <= ticks)"),
]
