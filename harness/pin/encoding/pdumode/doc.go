// SPDX-License-Identifier: MIT
//
// Copyright © 2018 Kent Gibson <warthog618@gmail.com>.

// Package pdumode provides functions to encode and decode PDU mode frames
// exchanged with a GSM modem in PDU mode.
package pdumode
