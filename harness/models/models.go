// Package models replaces operating-system services under gosym.
package models
