// Package rtsync holds run-time halves of properties that need virtual time.
package rtsync
