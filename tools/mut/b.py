S = "eas_smf.c"; D = "eas_midi.c"; W = "eas_wtsynth.c"
M = [
("smf_tie", "C17 C13", S, "        if (pSMFData->streams[i].ticks < temp)\n        {\n            temp = pSMFData->streams[i].ticks;", "        if (pSMFData->streams[i].ticks <= temp && pSMFData->streams[i].ticks < 0x7fffffff)\n        {\n            temp = pSMFData->streams[i].ticks;"),
("smf_zero_delta_stay", "C17", S, "        else if (pSMFData->nextStream->ticks == ticks)\n        {", "        else if (pSMFData->nextStream->ticks - ticks < 2)\n        {"),
("smf_time_hi", "C10", S, "    temp1 = (ticks >> 10) * pSMFData->tickConv;", "    temp1 = (ticks >> 10) * (pSMFData->tickConv & 0xffff);"),
("smf_time_lo", "C10", S, "(ticks & 0x3ff) * pSMFData->tickConv) >> 2);", "((ticks & 0x3ff) * pSMFData->tickConv & 0xffffff)) >> 2);"),
("smf_reset_running", "C29 C13 C17", S, "        /* initalize the MIDI parser data */\n        EAS_InitMIDIStream(&pSMFData->streams[i].midiStream);\n\n        /* parse the first delta time in each stream */\n        if ((result = SMF_GetDeltaTime(pEASData->hwInstData,", "        /* parse the first delta time in each stream */\n        if ((result = SMF_GetDeltaTime(pEASData->hwInstData,"),
("smf_f7", "C17", S, "    if (f0 == 0xf0)\n    {", "    if (f0 != 0)\n    {"),
("smf_err_release", "C08", S, "            if (result != EAS_EOF)\n            {\n                VMReleaseAllVoices(pEASData->pVoiceMgr, pSMFData->pSynth);\n                return result;\n            }\n\n            /* indicate end of track for this stream */", "            if (result != EAS_EOF)\n            {\n                return result;\n            }\n\n            /* indicate end of track for this stream */"),
("smf_meta_bufsize", "C23", S, "            readLen = pSMFData->metadata.bufferSize - 1;\n            if ((EAS_I32) len < readLen)", "            readLen = pSMFData->metadata.bufferSize;\n            if ((EAS_I32) len < readLen)"),
("smf_meta_trunc", "C23", S, "            if ((EAS_I32) len < readLen)\n                readLen = (EAS_I32) len;", "            if ((EAS_I32) len <= readLen + 1)\n                readLen = (EAS_I32) len - ((EAS_I32) len > readLen);\n            else readLen--;"),
("smf_meta_tempo_short", "C10", S, "        while (len)\n        {\n            len--;\n            if ((result = EAS_HWGetByte(pEASData->hwInstData, pSMFStream->fileHandle, &c)) != EAS_SUCCESS)\n                return result;\n            temp = (temp << 8) | c;", "        while (len > 0 && len < 4)\n        {\n            len--;\n            if ((result = EAS_HWGetByte(pEASData->hwInstData, pSMFStream->fileHandle, &c)) != EAS_SUCCESS)\n                return result;\n            temp = ((temp << 8) | c) & 0x7fffff;"),
("smf_meta_title1", "C23", S, "        if (c == SMF_META_SEQTRK_NAME)\n            metaType", "        if ((c == SMF_META_SEQTRK_NAME) && (pSMFStream == pSMFData->streams))\n            metaType"),
("smf_meta_seek", "C17 C23", S, "    /* position file to next event - in case we ignored all or part of the meta-event */\n    if ((result =", "    /* position file to next event - in case we ignored all or part of the meta-event */\n    if (len != 0x80 && (result ="),
("smf_state_stopping", "C08 C12", S, "    if (pSMFData->state == EAS_STATE_STOPPING)\n    {\n        if (VMActiveVoices(pSMFData->pSynth) == 0)", "    if (pSMFData->state == EAS_STATE_STOPPING)\n    {\n        if (VMActiveVoices(pSMFData->pSynth) <= 1)"),
("smf_pause_stopping", "C12", S, "    if (pSMFData->state == EAS_STATE_STOPPED || pSMFData->state == EAS_STATE_STOPPING)\n        return EAS_ERROR_ALREADY_STOPPED;\n\n    /* mute the synthesizer */", "    if (pSMFData->state == EAS_STATE_STOPPED)\n        return EAS_ERROR_ALREADY_STOPPED;\n\n    /* mute the synthesizer */"),
("smf_close_err", "C05 C06", S, "    if (pSMFData->fileHandle != NULL)\n        if ((result = EAS_HWCloseFile", "    if (pSMFData->fileHandle != NULL && pSMFData->numStreams == 0)\n        if ((result = EAS_HWCloseFile"),
("smf_prep_dup", "C05 C06 C07", S, "            else\n                EAS_HWCloseFile(pEASData->hwInstData, pSMFData->streams[i].fileHandle);\n            pSMFData->streams[i].fileHandle = NULL;", "            pSMFData->streams[i].fileHandle = NULL;"),
("smf_maxstreams", "C01 C17", S, "    if (numStreams > MAX_SMF_STREAMS)\n", "    if (numStreams > MAX_SMF_STREAMS / 2)\n"),
("smf_chunkend", "C01 C08", S, "            if (temp <= chunkStart)\n", "            if (temp < chunkStart && chunkSize)\n"),
("smf_reset_tempo", "C29 C13", S, "    pSMFData->tickConv = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;\n\n    /* reset the synth */", "    /* reset the synth */"),
("smf_reset_soft", "C29 C13", S, "    /* reset the synth */\n    VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);", "    /* reset the synth */\n    VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_FALSE);"),
("smf_chase_flag", "C10 C17", S, "            if (pSMFStream->midiStream.flags & MIDI_FLAG_FIRST_NOTE)\n                pSMFData->flags &= ~SMF_FLAGS_CHASE_MODE;", "            if (pSMFStream->midiStream.flags & MIDI_FLAG_FIRST_NOTE)\n                pSMFData->flags |= SMF_FLAGS_CHASE_MODE;"),
("smf_sysex_len", "C16 C17", S, "    while (len)\n    {\n        len--;\n        if ((result = EAS_HWGetByte(pEASData->hwInstData, pSMFStream->fileHandle, &c)) != EAS_SUCCESS)\n            return result;\n        if ((result = EAS_ParseMIDIStream", "    while (len)\n    {\n        len--;\n        if ((result = EAS_HWGetByte(pEASData->hwInstData, pSMFStream->fileHandle, &c)) != EAS_SUCCESS)\n            return result;\n        if (c < 0xf7 && (c & 0x80)) continue;\n        if ((result = EAS_ParseMIDIStream"),
("smf_filetype", "C23 C04", S, "            if (pSMFData->numStreams == 1)\n", "            if (pSMFData->numStreams <= 2)\n"),
# midi
("midi_realtime", "C16", D, "        if (c < 0xf8)\n        {", "        if (c < 0xff)\n        {"),
("midi_rt_byte3", "C16", D, "            pMIDIStream->byte3 = EAS_FALSE;\n\n            /* deal with SysEx */", "            /* deal with SysEx */"),
("midi_f2", "C16", D, "        if (pMIDIStream->status == 0xf2)\n", "        if (pMIDIStream->status == 0xf1)\n"),
("midi_f5_clear", "C16", D, "        /* remaining messages all clear running status */\n        pMIDIStream->runningStatus = 0;", "        /* remaining messages all clear running status */\n        if (pMIDIStream->status != 0xf3) pMIDIStream->runningStatus = 0;"),
("midi_gm2", "C28", D, "            if ((c == 1) || (c == 3))", "            if (c == 1)"),
("midi_gm_mip", "C28", D, "                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_FALSE);\n                    VMInitMIPTable(pSynth);", "                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_FALSE);"),
("midi_mvol_lsb", "C19", D, "((EAS_I32) pMIDIStream->d1 << 1);", "((EAS_I32) pMIDIStream->d1 << 2);"),
("midi_seek_bend", "C13", D, "        if (parserMode <= eParserModeMute)\n            VMPitchBend", "        if (parserMode == eParserModePlay)\n            VMPitchBend"),
("midi_seek_press", "C13", D, "        if (parserMode <= eParserModeMute)\n            VMChannelPressure", "        if (parserMode == eParserModePlay)\n            VMChannelPressure"),
("midi_seek_off", "C13", D, "            if (parserMode <= eParserModeMute)\n                VMStopNote", "            if (parserMode == eParserModePlay)\n                VMStopNote"),
("midi_meta_cc", "C23 C18", D, "        if (parserMode == eParserModeMetaData)\n            return EAS_SUCCESS;\n        return ProcessMIDIMessage(pEASData, pSynth, pMIDIStream, parserMode);\n    }\n\n    /* check for status received */", "        return ProcessMIDIMessage(pEASData, pSynth, pMIDIStream, parserMode);\n    }\n\n    /* check for status received */"),
("midi_sysex_end", "C16", D, "        pMIDIStream->sysExState = eSysEx;\n    }", "        if (pMIDIStream->sysExState != eSysExMasterVolLSB) pMIDIStream->sysExState = eSysEx;\n    }"),
("midi_mip_abort", "C16 C28 C15", D, "                /* bad MIP message - unmute channels */\n                if (parserMode != eParserModeMetaData)\n                    VMInitMIPTable(pSynth);", "                /* bad MIP message - unmute channels */"),
("midi_ch16", "C15 C27", D, "            if (c < NUM_SYNTH_CHANNELS)", "            if (c < NUM_SYNTH_CHANNELS - 1)"),
# wt
("wt_mute_flags", "C15", W, "        VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF |\n        VOICE_FLAG_DEFER_MUTE);", "        VOICE_FLAG_DEFER_MUTE);"),
("wt_lfo_delay", "C09 C21", W, "    pWTVoice->modLFO.lfoPhase = -pArt->lfoDelay;", "    if (pWTVoice->modLFO.lfoPhase > 0 || pVoice->age == 0) pWTVoice->modLFO.lfoPhase = -pArt->lfoDelay;"),
("wt_filter_z", "C09 C21", W, "    pWTVoice->filter.z1 = 0;\n    pWTVoice->filter.z2 = 0;\n#endif\n\n    /* if this wave", "    pWTVoice->filter.z1 = 0;\n#endif\n\n    /* if this wave"),
("wt_phasefrac", "C09 C21 C29", W, "    pWTVoice->phaseFrac = DEFAULT_PHASE_FRAC;\n\n#if (NUM_OUTPUT", "#if (NUM_OUTPUT"),
("wt_eg2_release", "C15", W, "    pWTVoice->eg1Increment = pArticulation->eg1.releaseTime;\n", "    if (pWTVoice->eg1Value > 4000) pWTVoice->eg1Increment = pArticulation->eg1.releaseTime;\n"),
("wt_sustain_attack", "C15", W, "    if (pWTVoice->eg1Value < pSynth->pEAS->pArticulations[pWTVoice->artIndex].eg1.sustainLevel)\n        return;", "    if (pWTVoice->eg1Value < 2000)\n        return;"),
("wt_transpose_drum", "C25", W, "    if (pChannel->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL)\n        temp += pVoice->note * 100;", "    if ((pVoice->channel & 15) == DEFAULT_DRUM_CHANNEL)\n        temp += pVoice->note * 100;"),
("wt_tuning_drum", "C25", W, "    if (!(pChannel->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL))\n        pChannel->staticPitch +=", "    if (channel != DEFAULT_DRUM_CHANNEL)\n        pChannel->staticPitch +="),
("wt_bend", "C25", W, "        (((EAS_I32)(pChannel->pitchBend) << 2)\n        - 32768);", "        (((EAS_I32)(pChannel->pitchBend & ~3) << 2)\n        - 32768);"),
("wt_gain_wrap", "C19 C21", W, "    temp = (EAS_I16)MULT_EG1_EG1(temp, pWTVoice->eg1Value);", "    temp = (EAS_I16)MULT_EG1_EG1(temp, (pWTVoice->eg1Value & ~0x3f));"),
("wt_sampleend", "C09 C01 C15", W, "        } else if (pWTIntFrame->numSamples > BUFFER_SIZE_IN_MONO_SAMPLES) {", "        } else if (pWTIntFrame->numSamples > 2 * BUFFER_SIZE_IN_MONO_SAMPLES) {"),
("wt_eg_sustain0", "C15 C08 C14", W, "                /* move to sustain state */\n                else\n                    pWTVoice->eg1State = eEnvelopeStateMuted;", "                /* move to sustain state */\n                else\n                    pWTVoice->eg1State = eEnvelopeStateSustain;"),
("wt_release_low", "C15 C08", W, "            /* if we hit zero, this voice isn't contributing any audio */\n            if (temp <= 0)", "            /* if we hit zero, this voice isn't contributing any audio */\n            if (temp < 0)"),
("wt_done_stolen", "C15 C14", W, "    if ((pVoice->voiceState != eVoiceStateStolen) && (pWTVoice->eg1State == eEnvelopeStateMuted))", "    if (pWTVoice->eg1State == eEnvelopeStateMuted)"),
]
